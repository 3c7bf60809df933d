"""Session histories: queries interleaved with device events and network faults.

A check supplies how to build the stack, what each event does and what a query must end in when
no network fault hit it. The driver explores all event sequences and fault placements and judges:
the type of every outcome, exactly-once execution, recovery, and that nothing leaks.
"""

from __future__ import annotations

from . import core, net, servers, sess
from .core import Violation

# SMART error codes as documented by the vendor protocol, kept apart from the library's tables
RETRYABLE = {1002, 1112, -1001, 9999, -40401, -40413}
AUTH = {-1501, 1111, -1005, 1100, 1003, -40412}


def classify(code):
    if code in RETRYABLE:
        return "retry"
    if code in AUTH:
        return "AuthenticationError"
    return "DeviceError"


def run_history(ctx, p, build, event, expect, life=86400, probe=None, finish=None):
    """build(n)->Stack; event(name, st, loop)->bool|None (coroutine); expect(st, before)->set of kinds."""
    outcome = []

    async def main(loop):
        n = net.Net(loop, ctx)
        st = build(n)
        srv = st.server
        n.http_faults = p["faults"]
        loop.cancel_budget = p.get("cancel", 0)
        retry = p.get("retry", 3)
        tag = 0
        for i in range(p["n"] + 1):
            last = i == p["n"]
            if last:
                n.http_faults = []
                loop.cancel_budget = 0
                if finish:
                    finish(st)
            elif i:
                ev = ctx.pick(p["events"], "event")
                ctx.note("event", ev)
                if ev == "drop":
                    srv.drop_sessions()
                elif ev == "before_expiry":
                    loop._now += max(0, life - 1200 - 5)
                elif ev == "after_expiry":
                    loop._now += life + 1
                elif ev == "reset":
                    await st.proto._transport.reset() if not hasattr(st, "transport") else await st.transport.reset()
                elif ev == "close":
                    await st.proto.close()
                elif ev != "none":
                    event(ev, st, loop)
            used = ctx.used
            before = dict(apps=len(srv.apps), wire=len(n.http_log), scripted=len(getattr(srv, "scripted", ())))
            if probe:
                probe("before", st, before, None, None)
            tag += 1
            kind, ex = await sess.run_query(ctx, loop, st, tag, retry, outcome, cancel=bool(p.get("cancel")) and not last)
            clean = ctx.used == used
            if probe:
                probe("after", st, before, kind, ex)
            if clean:
                want = expect(st, before)
                if kind not in want:
                    raise Violation(f"query {i} without any network fault ended with {kind} ({ex}), expected {sorted(want)}",
                                    "healthy query failed" if want == {"ok"} else f"expected {sorted(want)}, got {kind}")
                if kind == "ok" and len(srv.apps) != before["apps"] + 1:
                    raise Violation(f"query {i} was executed {len(srv.apps) - before['apps']} times", "executed not once")
            elif kind == "ok" and expect(st, before) == {"AuthenticationError"} and not getattr(srv, "scripted", ())[before["scripted"]:]:
                raise Violation("query succeeded although the device rejects all credentials", "accepted")
        await st.proto.close()
        await st.proto.close()
        if any(not s.closed for s in n.sessions):
            raise Violation("HTTP session left open after close", "leak")
        return tuple(outcome)

    return core.run_loop(ctx, main)
