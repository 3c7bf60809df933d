"""Deterministic virtual-time event loop and stateless explorer.

One *execution* of a scenario runs real kasa code on a `VLoop`.  The loop never
touches real I/O: everything the outside world can do is an `EnvEvent` queued on
the loop.  When no task can make progress (the ready queue is empty) the loop asks
the explorer which of the possible things happens next: an environment event (with
which outcome), the next timer, or the cancellation of a task.  The explorer
enumerates all such choice sequences depth first; a choice other than the default
costs one unit of the scenario's deviation budget unless it is marked free.
"""

from __future__ import annotations

import asyncio
import heapq
import os
import signal
import time as _time
from collections import Counter

REAL_TIME = _time.time
REAL_MONO = _time.monotonic

EPOCH = 1_700_000_000.0


_raised = []


class Violation(Exception):
    """The property does not hold in this execution."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.msg = msg
        self.sig = sig or msg
        # the code under test may swallow exceptions: creating one is enough
        _raised.append(self)


class Hang(BaseException):
    """CPU limit of one execution exceeded."""


class HarnessError(BaseException):
    """The harness itself is inconsistent (never a verdict)."""


# ---------------------------------------------------------------- virtual clock
_current_loop = None
_extra = 0.0


def _vtime():
    if _current_loop is not None:
        return EPOCH + _current_loop._now
    return REAL_TIME()


def _vmono():
    if _current_loop is not None:
        return 5_000.0 + _current_loop._now
    return REAL_MONO()


def install_clock():
    _time.time = _vtime
    _time.monotonic = _vmono


def install_datetime():
    """Let datetime.now()/today() follow the virtual clock (before kasa is imported)."""
    import datetime as d
    real = d.datetime
    if getattr(real, "_virtual", False):
        return

    class Meta(type(real)):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, real)

    class VDateTime(real, metaclass=Meta):
        _virtual = True

        @classmethod
        def now(cls, tz=None):
            # a plain datetime: values must look the same to every consumer
            return real.fromtimestamp(_vtime() + _host_shift[0], tz)

        @classmethod
        def utcnow(cls):
            return real.utcfromtimestamp(_vtime() + _host_shift[0])

        @classmethod
        def today(cls):
            return cls.now()

        def __new__(cls, *a, **k):
            return real.__new__(real, *a, **k)

    for n in ("fromtimestamp", "utcfromtimestamp", "fromisoformat", "combine", "strptime", "fromordinal",
              "fromisocalendar"):
        setattr(VDateTime, n, staticmethod(getattr(real, n)))
    VDateTime.__name__ = VDateTime.__qualname__ = "datetime"
    d.datetime = VDateTime


_host_shift = [0.0]


def set_host_time(ts):
    """Shift the host's wall clock so that it shows `ts` now."""
    _host_shift[0] = ts - _vtime() if ts is not None else 0.0


class Ctx:
    """Choice source and log of one execution."""

    def __init__(self, prefix=(), budget=0):
        self.prefix = prefix
        self.choices = []  # (chosen, n, cost-of-alternatives list or None)
        self.budget = budget
        self.used = 0
        self.log = []
        self.obs = []
        self._h = hash(())
        self.states = []
        self.max_steps = 4000

    def note(self, *what):
        """Append to the trace (drives state identity)."""
        self.log.append(what)
        self._h = hash((self._h, repr(what)))

    def choose(self, n, label, costs=None):
        """Return an int in range(n).

        costs[i] is the budget cost of picking i (default: 0 for i == 0, else 1).
        """
        i = len(self.choices)
        if costs is None:
            costs = [0] + [1] * (n - 1)
        self.states.append(hash((self._h, label, n)))
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise HarnessError(f"replay diverged at {i}: {label} {c}>={n}")
        else:
            c = 0
            for k in range(n):
                if costs[k] == 0:
                    c = k
                    break
        self.choices.append((c, n, tuple(costs), self.used))
        self.used += costs[c]
        if n > 1:
            self.note("?", label, c)
        return c

    def pick(self, seq, label):
        """Free choice of an element."""
        seq = list(seq)
        return seq[self.choose(len(seq), label, [0] * len(seq))]

    def alternatives(self):
        """Prefixes of the unexplored siblings created by this execution."""
        out = []
        base = [c for c, *_ in self.choices]
        for i in range(len(self.prefix), len(self.choices)):
            c, n, costs, used = self.choices[i]
            first = c
            for k in range(n):
                if k != first and used + costs[k] <= self.budget:
                    # siblings before the default one can only have cost > 0
                    out.append(tuple(base[:i]) + (k,))
        return out


# ---------------------------------------------------------------- event loop
class EnvEvent:
    """Something the environment may do. outcomes: list of (name, fn, cost)."""

    __slots__ = ("label", "outcomes", "done", "seq", "never")

    def __init__(self, label, outcomes):
        self.label = label
        self.outcomes = outcomes
        self.done = False


class Deadlock(Violation):
    pass


class VLoop(asyncio.BaseEventLoop):
    """Event loop whose environment is the explorer."""

    def __init__(self, ctx: Ctx):
        super().__init__()
        self.ctx = ctx
        self._now = 0.0
        self._env = []  # pending EnvEvents
        self._cancellable = []  # (name, task)
        self.cancel_budget = 0
        self.timer_race = False  # may timers fire before pending env events?
        self.reorder = False  # may younger env events fire first?
        self.steps = 0
        self.net = None
        self.exc_contexts = []
        self.set_exception_handler(lambda loop, c: self.exc_contexts.append(c))
        self.set_debug(False)

    # -- plumbing
    def time(self):
        return self._now

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def call_soon_threadsafe(self, callback, *args, context=None):
        return self.call_soon(callback, *args, context=context)

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()
        try:
            fut.set_result(func(*args))
        except Exception as ex:  # noqa: BLE001
            fut.set_exception(ex)
        return fut

    async def shutdown_default_executor(self, timeout=None):
        pass

    # -- environment
    def post(self, label, *outcomes):
        """Queue an env event; outcomes are (name, fn) or (name, fn, cost)."""
        outs = [(o[0], o[1], (o[2] if len(o) > 2 else (0 if i == 0 else 1))) for i, o in enumerate(outcomes)]
        ev = EnvEvent(label, outs)
        self._env.append(ev)
        return ev

    def drop(self, ev):
        if ev in self._env:
            self._env.remove(ev)

    def cancellable(self, name, task):
        self._cancellable.append((name, task))

    def _next_timer(self):
        while self._scheduled and self._scheduled[0]._cancelled:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            self._timer_cancelled_count = max(0, self._timer_cancelled_count - 1)
        return self._scheduled[0] if self._scheduled else None

    def _fire_timers(self):
        h = self._next_timer()
        self._now = max(self._now, h._when)
        while (h := self._next_timer()) and h._when <= self._now + 1e-9:
            heapq.heappop(self._scheduled)
            h._scheduled = False
            self._ready.append(h)

    def _fire(self, ev, k):
        name, fn, _ = ev.outcomes[k]
        self._env.remove(ev)
        self.ctx.note("env", ev.label, name)
        fn()

    def _idle(self):
        self.steps += 1
        if self.steps > self.ctx.max_steps:
            raise Violation(f"no termination within {self.ctx.max_steps} environment steps", "nontermination")
        opts = []  # (label, fn, cost)
        env = list(self._env)
        for pos, ev in enumerate(env):
            if pos and not self.reorder:
                break
            for k, (name, _fn, cost) in enumerate(ev.outcomes):
                opts.append((f"{ev.label}:{name}", lambda ev=ev, k=k: self._fire(ev, k), cost + (1 if pos else 0)))
        timer = self._next_timer()
        if timer is not None:
            if not opts:
                opts.append(("timer", self._fire_timers, 0))
            elif self.timer_race or all(c > 0 for *_, c in opts):
                opts.append(("timer", self._fire_timers, 0 if all(c > 0 for *_, c in opts) else 1))
        if self.cancel_budget > 0:
            for name, task in self._cancellable:
                if not task.done():
                    opts.append((f"cancel {name}", lambda t=task, n=name: self._do_cancel(n, t), 1))
                    if env:
                        ev = env[0]
                        if ev.outcomes[0][2] == 0:
                            opts.append((f"{ev.label}:{ev.outcomes[0][0]}+cancel {name}",
                                         lambda t=task, n=name, ev=ev: (self._fire(ev, 0), self._do_cancel(n, t)), 1))
        if not opts:
            raise Deadlock("no task can make progress: blocked for ever", "deadlock")
        if all(c > 0 for *_, c in opts):
            # nothing free: the cheapest becomes the default
            opts.sort(key=lambda o: o[2])
            opts[0] = (opts[0][0], opts[0][1], 0)
        if len(opts) == 1:
            label, fn, _ = opts[0]
            fn()
            return
        c = self.ctx.choose(len(opts), "|".join(o[0] for o in opts), [o[2] for o in opts])
        self.ctx.note("do", opts[c][0])
        opts[c][1]()

    def _do_cancel(self, name, task):
        self.cancel_budget -= 1
        self.ctx.note("cancel", name)
        task.cancel()

    def _run_once(self):
        self._next_timer()
        if not self._ready:
            if self._stopping:
                return
            self._idle()
        n = len(self._ready)
        for _ in range(n):
            h = self._ready.popleft()
            if not h._cancelled:
                h._run()
        h = None

    # -- network entry points
    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        return await self.net.tcp_connect(protocol_factory, host, port, **kw)

    async def create_datagram_endpoint(self, protocol_factory, local_addr=None, remote_addr=None, **kw):
        return await self.net.udp_endpoint(protocol_factory, local_addr, remote_addr, **kw)

    async def getaddrinfo(self, host, port, **kw):
        import socket
        return [(socket.AF_INET, socket.SOCK_STREAM, 6, "", (host, port))]


def run_loop(ctx: Ctx, main, setup=None):
    """Run coroutine function main(loop) to completion; returns its result."""
    global _current_loop
    loop = VLoop(ctx)
    prev = _current_loop
    _current_loop = loop
    asyncio.set_event_loop(None)
    try:
        if setup:
            setup(loop)
        coro = main(loop)
        task = None
        try:
            task = loop.create_task(coro)
            return loop.run_until_complete(task)
        finally:
            # cancel leftovers quietly
            try:
                left = [t for t in asyncio.all_tasks(loop) if not t.done()]
                for t in left:
                    t.cancel()
                    t._log_destroy_pending = False
                for _ in range(200):
                    if not loop._ready or all(t.done() for t in left):
                        break
                    n = len(loop._ready)
                    asyncio._set_running_loop(loop)
                    try:
                        for _ in range(n):
                            h = loop._ready.popleft()
                            if not h._cancelled:
                                h._run()
                    finally:
                        asyncio._set_running_loop(None)
            except Exception:  # noqa: BLE001
                pass
            loop.leftover_tasks = len(left) if "left" in dir() else 0
    finally:
        _current_loop = prev
        if not loop.is_running():
            loop._ready.clear()
            loop._scheduled.clear()
            loop.close()


# ---------------------------------------------------------------- determinism
_rng_counter = [0]


def det_bytes(n=32):
    """Deterministic, distinct 'random' bytes."""
    import hashlib
    out = b""
    while len(out) < n:
        _rng_counter[0] += 1
        out += hashlib.sha256(b"mc%d" % _rng_counter[0]).digest()
    return out[:n]


def reset_rng():
    _rng_counter[0] = 0
    import random
    random.seed(12345)


def install_determinism():
    import random
    import secrets
    os.urandom = det_bytes
    secrets.token_bytes = lambda n=32: det_bytes(n if n is not None else 32)
    secrets.token_hex = lambda n=32: det_bytes(n if n is not None else 32).hex()
    secrets.randbelow = lambda n: int.from_bytes(det_bytes(16), "big") % n
    random.seed(12345)


def install():
    install_clock()
    install_determinism()


# ---------------------------------------------------------------- explorer
class Stats:
    """Mergeable counters of one exploration."""

    def __init__(self):
        self.executions = 0
        self.states = set()
        self.transitions = 0
        self.outcomes = Counter()
        self.counters = Counter()
        self.samples = []
        self.violations = []
        self.known = Counter()
        self.nondet = 0
        self.replayed = 0

    def merge(self, o):
        self.executions += o.executions
        self.states |= o.states
        self.transitions += o.transitions
        self.outcomes.update(o.outcomes)
        self.counters.update(o.counters)
        for s in o.samples:
            if len(self.samples) < 12:
                self.samples.append(s)
        self.violations.extend(o.violations)
        self.known.update(o.known)
        self.nondet += o.nondet
        self.replayed += o.replayed


CPU_LIMIT = 60.0


def _on_prof(signum, frame):
    raise Hang("CPU limit of one execution exceeded")


def execute(runner, params, prefix, budget):
    """One execution; returns (ctx, outcome, violation or None)."""
    reset_rng()
    _raised.clear()
    ctx = Ctx(prefix, budget)
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        outcome = runner(ctx, params)
        if _raised:
            return ctx, "VIOLATION", _raised[0]
        return ctx, outcome, None
    except Violation as v:
        return ctx, "VIOLATION", _raised[0] if _raised else v
    except Hang:
        return ctx, "HANG", Violation(f"execution used more than {CPU_LIMIT}s of CPU without finishing", "hang")
    except HarnessError:
        raise
    except Exception as ex:  # noqa: BLE001
        import traceback
        tb = traceback.format_exc()
        if _raised:
            return ctx, "VIOLATION", _raised[0]
        return ctx, "EXC", Violation(f"unexpected {type(ex).__name__}: {ex}\n{tb}", f"unexpected {type(ex).__name__}")
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def explore_chunk(runner, params, prefixes, slice_s=1.0, seed=1, max_viol=3, known=frozenset()):
    """Explore depth first from the given prefixes for about slice_s seconds."""
    st = Stats()
    stack = list(prefixes)
    t0 = REAL_MONO()
    budget = params.get("budget", 0)
    while stack:
        prefix = stack.pop()
        ctx, outcome, viol = execute(runner, params, prefix, budget)
        st.executions += 1
        new = len(ctx.choices) - len(prefix) + 1
        st.transitions += max(new, 1)
        base = hash(repr(sorted((k, repr(v)) for k, v in params.items())))
        for s in ctx.states[max(0, len(prefix) - 1):]:
            st.states.add(hash((base, s)))
        st.states.add(hash((base, "end", ctx._h)))
        key = outcome if isinstance(outcome, str) else repr(outcome)
        st.outcomes[key[:160]] += 1
        if getattr(ctx, "counters", None):
            st.counters.update(ctx.counters)
        choices = [c for c, *_ in ctx.choices]
        if viol is not None:
            # replay once: a verdict must be reproducible
            ctx2, _, viol2 = execute(runner, params, tuple(choices), budget)
            if viol2 is None:
                st.nondet += 1
            if viol.sig in known:
                st.known[viol.sig] += 1
                stack.extend(reversed(ctx.alternatives()))
                if REAL_MONO() - t0 > slice_s:
                    break
                continue
            st.violations.append(dict(params=params, choices=choices, message=viol.msg, sig=viol.sig,
                                      log=[repr(x) for x in ctx.log][-80:], reproduced=viol2 is not None))
            if len(st.violations) >= max_viol:
                return st, []
        elif (st.executions + seed) % 64 == 1:
            ctx2, out2, viol2 = execute(runner, params, tuple(choices), budget)
            st.replayed += 1
            if ctx2._h != ctx._h or viol2 is not None:
                st.nondet += 1
        if len(st.samples) < 2 and (st.executions % 37 == 1):
            st.samples.append(dict(params={k: (v if isinstance(v, (int, str, float, list, bool, type(None))) else repr(v)) for k, v in params.items()},
                                   choices=choices[:60], outcome=key[:200],
                                   log=[repr(x)[:160] for x in ctx.log][:14]))
        stack.extend(reversed(ctx.alternatives()))
        if REAL_MONO() - t0 > slice_s:
            break
    return st, stack
