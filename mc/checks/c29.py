"""C29: calls on one device object that overlap, or are abandoned, leave it consistent."""

from __future__ import annotations

import asyncio

from mc import core
from mc.core import Violation

core.install_datetime()

from mc import cmds  # noqa: E402
from mc.checks import c17, c25, c26  # noqa: E402

BOUNDS = {
    "quick": "every recorded device of a new shape, with its children: an update overlapping every command (commands and settable features as in C26), either one started at every exchange of the other; two updates, two first updates, and an update of one child overlapping an update of the whole; every pair of neighbouring commands; every command, update and first update cancelled at every exchange before or after the device served it, an update after a command of each kind too; on every hub with children, two overlapping updates and a cancelled one with the first or last child removed or added before any exchange of them",
    "thorough": "on every recorded device; every ordered pair of commands of one device; every child of a hub",
}
ASSUMPTIONS = "the device is healthy; it answers one exchange at a time; two tasks overlap"


FRESH_SKIP = c25.FRESH_SKIP | {"state_information"}  # repeats the features


class Gate:
    """Does something when the k-th exchange is under way."""

    def __init__(self, s, k=None, phase="before", fn=None):
        self.s, self.k, self.phase, self.fn = s, k, phase, fn
        self.n = 0
        self.fired = False
        s.on_send = self.send

    async def send(self, req):
        n = self.n
        self.n += 1
        ans = None
        if n == self.k and not self.fired:
            self.fired = True
            if self.phase == "after":
                ans = self.s.answer(req)
            self.fn()
        await asyncio.sleep(0.01)
        return ans

    def off(self):
        self.s.on_send = None


def again(kind, s):
    return cmds.iotsim.iot_device(s) if kind == "iot" else c17.sim.smart_device(s)


#: what a firmware check finds is not refreshed by an update (C23); the steps are settings of the object only
SKIP = ("feature check_latest_firmware", "Firmware.check_latest_firmware", "check_latest_firmware", "feature pan_step", "feature tilt_step")
FIRST = (-1, "first update")


def operations(kind, s, dev):
    """{key: (coroutine function of the device, pre)}"""
    out = {(0, "update"): (lambda d: d.update(), None)}
    for n, _ in enumerate(dev.children):
        out[n + 1, "update of the child"] = (lambda d: d.update(), None)
    out.update({k: v for k, v in c26.all_commands(kind, s, dev).items() if not k[1].startswith(SKIP)})
    return out


async def ready(kind, fix, pres, first=False):
    s, dev = cmds.build(kind, fix)
    if not first:
        await dev.update()
        if any(pres):
            for pre in pres:
                if pre:
                    pre(s)
            await dev.update()
    return s, dev


def ops_of(kind, fix):
    async def main():
        s, dev = cmds.build(kind, fix)
        await dev.update()
        return operations(kind, s, dev)
    return main


_OPS = {}
_LEN = {}
_SERIAL = {}


async def ops(kind, fix):
    if (kind, fix) not in _OPS:
        s, dev = cmds.build(kind, fix)
        await dev.update()
        _OPS[kind, fix] = operations(kind, s, dev)
    return _OPS[kind, fix]


async def call(dev, key, fn):
    if key == FIRST:
        return await dev.update()
    return await fn([dev, *dev.children][key[0]])


def table_entry(table, key):
    return (None, None) if key == FIRST else table[key]


async def length(kind, fix, key, table, other=None):
    """How many exchanges the operation takes when it runs alone."""
    fn, pre = table_entry(table, key)
    pres = [pre, other and table_entry(table, other)[1]]
    at = (kind, fix, key, other if pres[1] else None)
    if at not in _LEN:
        s, dev = await ready(kind, fix, pres, key == FIRST)
        g = Gate(s)
        await call(dev, key, fn)
        _LEN[at] = g.n
    return _LEN[at]


async def serial(kind, fix, a, b, table):
    """State and results of both serial orders."""
    if FIRST in (a, b) or a[1] in UPDATES and b[1] in UPDATES:
        return [(None, {(a, 0): "None", (b, 1 if a == b else 0): "None"})]
    for up, c in ((a, b), (b, a)):
        if up[1] in UPDATES:  # changes nothing on the device
            if (kind, fix, c) not in _SERIAL:
                s, dev = await ready(kind, fix, [table_entry(table, c)[1]])
                try:
                    res = c25.text(await call(dev, c, table_entry(table, c)[0]))
                except Exception as ex:  # noqa: BLE001
                    res = ex
                await dev.update()
                _SERIAL[kind, fix, c] = cmds.snapshot(kind, s), res
            state, res = _SERIAL[kind, fix, c]
            return [(state, {(c, 0): res, (up, 0): "None"})]
    if (kind, fix, a, b) not in _SERIAL:
        out = []
        for order in ((a, b), (b, a)):
            s, dev = await ready(kind, fix, [table_entry(table, k)[1] for k in (a, b)], FIRST in order)
            res = {}
            for n, k in enumerate(order):
                try:
                    res[k, n if a == b else 0] = c25.text(await call(dev, k, table_entry(table, k)[0]))
                except Exception as ex:  # noqa: BLE001
                    res[k, n if a == b else 0] = ex
            out.append((cmds.snapshot(kind, s), res))
        _SERIAL[kind, fix, a, b] = out
    return _SERIAL[kind, fix, a, b]


def sig_of(*keys):
    return "/".join(k[1].split("=")[0] if k[1].startswith("feature") else k[1].split(" ")[0] for k in keys)


async def compare(kind, s, dev, what, sig):
    new = again(kind, s)
    await new.update()
    x, y = c25.observe(dev, True), c25.observe(new, True)
    for o in sorted(set(x) | set(y), key=repr):
        if o[2] not in FRESH_SKIP and x.get(o, "missing") != y.get(o, "missing"):
            raise Violation(f"{what}: after an update {o[2]} of {o[1]} (device {o[0]}) is {str(x.get(o, 'missing'))[:200]}, a new object shows {str(y.get(o, 'missing'))[:200]}",
                            f"stale {o[1]}.{o[2]} after {sig}")


async def settle(kind, s, dev, what, sig, table, then=None):
    """The object is usable and shows the device."""
    try:
        await dev.update()
    except Exception as ex:  # noqa: BLE001
        raise Violation(f"{what}: the update afterwards raised {ex!r}", f"update after {sig}") from None
    await compare(kind, s, dev, what, sig)
    if then is not None:
        for key in then:
            try:
                await call(dev, key, table[key][0])
            except Exception as ex:  # noqa: BLE001
                raise Violation(f"{what}: {key[1]} afterwards raised {ex!r}", f"command after {sig}") from None
        try:
            await dev.update()
        except Exception as ex:  # noqa: BLE001
            raise Violation(f"{what}: the update after the commands raised {ex!r}", f"update after commands after {sig}") from None
        await compare(kind, s, dev, what + ", then every command", sig)


async def overlap(ctx, p, pairs, table):
    kind, fix = p["kind"], p["fix"]
    a, b = ctx.pick(pairs, "pair")
    n = await length(kind, fix, a, table, b)
    if n == 0:
        return "silent"
    k = ctx.pick(range(n), "exchange")
    first = a == FIRST
    then = everything(table) if first else None
    s, dev = await ready(kind, fix, [table_entry(table, x)[1] for x in (a, b)], first)
    what = f"{a[1]} on {fix} (device {a[0]}), with {b[1]} (device {b[0]}) started at its exchange {k}"
    sig = sig_of(a, b)
    loop = asyncio.get_running_loop()
    tasks = []
    g = Gate(s, k, "before", lambda: tasks.append(loop.create_task(call(dev, b, table_entry(table, b)[0]))))
    ra = rb = None
    try:
        ra = c25.text(await call(dev, a, table_entry(table, a)[0]))
    except Exception as ex:  # noqa: BLE001
        ra = ex
    if not tasks:
        raise core.HarnessError(f"{what}: never started")
    try:
        rb = c25.text(await tasks[0])
    except Exception as ex:  # noqa: BLE001
        rb = ex
    g.off()
    allowed = await serial(kind, fix, a, b, table)
    for key, n, r in ((a, 0, ra), (b, 1 if a == b else 0, rb)):
        if isinstance(r, Exception) and not any(isinstance(res[key, n], Exception) for _, res in allowed):
            raise Violation(f"{what}: {key[1]} raised {r!r}", f"raised {sig}")
    state = cmds.snapshot(kind, s)
    if not any(st is None or state == st for st, _ in allowed):
        d = [c25.diff(leaves(state), leaves(st)) for st, _ in allowed]
        raise Violation(f"{what}: the device ends with {d} unlike either order one after the other", f"not serial {sig}")
    await settle(kind, s, dev, what, sig, table, then)
    ctx.note(what)
    return "overlapped"


UPDATES = ("update", "update of the child")
#: these read, change and write back on the caller's side
CALLER_SIDE = ("set_turn_on_behavior from", "set_turn_on_behavior as")


def everything(table):
    """One command of each kind, with a new value."""
    out = {}
    for key, (_, pre) in table.items():
        if pre is None and key[1] not in UPDATES:
            out.setdefault((key[0], sig_of(key)), key)
    return list(out.values())


def leaves(x):
    return {k: repr(v) for k, v in c17.leaves(x, "", {}).items()}


async def cancel(ctx, p, keys, table):
    kind, fix = p["kind"], p["fix"]
    a = ctx.pick(keys, "operation")
    n = await length(kind, fix, a, table)
    if n == 0:
        return "silent"
    k = ctx.pick(range(n), "exchange")
    phase = ctx.pick(("before", "after"), "phase")
    then = everything(table) if a == FIRST else None
    fn, pre = table_entry(table, a)
    s, dev = await ready(kind, fix, [pre], a == FIRST)
    what = f"{a[1]} on {fix} (device {a[0]}), cancelled {phase} its exchange {k}"
    sig = "cancelled " + sig_of(a)
    loop = asyncio.get_running_loop()
    task = loop.create_task(call(dev, a, fn))
    g = Gate(s, k, phase, lambda: task.cancel())
    try:
        await task
    except asyncio.CancelledError:
        pass
    except Exception as ex:  # noqa: BLE001
        raise Violation(f"{what}: raised {ex!r} instead of being cancelled", f"raised {sig}") from None
    else:
        raise Violation(f"{what}: went on", f"swallowed {sig}")
    g.off()
    await settle(kind, s, dev, what, sig, table, then)
    ctx.note(what)
    return "cancelled"


async def refresh(ctx, p, commands, updates, table):
    """The update that would show what a command changed is abandoned."""
    kind, fix = p["kind"], p["fix"]
    c = ctx.pick(commands, "command")
    u = ctx.pick([u for u in updates if u[0] == 0 or p["th"] and u[0] == c[0]], "update")
    n = await length(kind, fix, u, table)
    if n == 0:
        return "silent"
    k = ctx.pick(range(n), "exchange")
    phase = ctx.pick(("before", "after"), "phase")
    s, dev = await ready(kind, fix, [table[c][1]])
    await call(dev, c, table[c][0])
    what = f"{c[1]} on {fix} (device {c[0]}), then {u[1]} (device {u[0]}) cancelled {phase} its exchange {k}"
    sig = f"{sig_of(c)} and a cancelled update"
    task = asyncio.get_running_loop().create_task(call(dev, u, table[u][0]))
    g = Gate(s, k, phase, lambda: task.cancel())
    try:
        await task
    except asyncio.CancelledError:
        pass
    except Exception as ex:  # noqa: BLE001
        raise Violation(f"{what}: raised {ex!r}", f"raised {sig}") from None
    if not g.fired:
        return "unreached"
    g.off()
    await settle(kind, s, dev, what, sig, table)
    ctx.note(what)
    return "shown"


async def population(ctx, p):
    """A child comes or goes while updates overlap or are cancelled."""
    kind, fix = p["kind"], p["fix"]
    s, dev = cmds.build(kind, fix)
    ids = list(s.children)
    who = ctx.pick(ids if p["th"] else dict.fromkeys((ids[0], ids[-1])), "child")
    how = ctx.pick(("removed", "added"), "how")
    cut = ctx.pick(("overlap", "cancel before", "cancel after"), "cut")
    if how == "added":
        taken = s.remove_child(who)
    await dev.update()
    await asyncio.sleep(90_000)  # every module is due again
    g = Gate(s)
    await dev.update()
    n = g.n
    await asyncio.sleep(90_000)
    k = ctx.pick(range(n), "exchange")
    j = ctx.pick(range(-1, 2 * n if cut == "overlap" else k), "change")  # -1: before the calls
    what = f"update of {fix}, {cut} at exchange {k}, {who} {how} before exchange {j}"
    sig = f"child {how} {cut.split(' ')[0]}"
    loop = asyncio.get_running_loop()
    tasks = []

    def change():
        if how == "removed":
            s.remove_child(who)
        else:
            s.add_child(*taken)

    count = [0]
    phase = "after" if cut == "cancel after" else "before"
    g = Gate(s, k, phase, (lambda: tasks.append(loop.create_task(dev.update()))) if cut == "overlap" else (lambda: first.cancel()))

    async def send(req):
        if count[0] == j:
            change()
        count[0] += 1
        return await g.send(req)
    s.on_send = send
    if j < 0:
        change()
    first = loop.create_task(dev.update())
    for n, t in enumerate((first, tasks)):
        for t in [t] if t is first else t:
            try:
                await t
            except asyncio.CancelledError:
                if cut == "overlap":
                    raise
            except Exception as ex:  # noqa: BLE001
                raise Violation(f"{what}: raised {ex!r}", f"raised {sig}") from None
    if not g.fired:
        return "unreached"
    if cut != "overlap" and not first.cancelled():
        raise Violation(f"{what}: went on", f"swallowed {sig}")
    s.on_send = None
    if count[0] <= j:
        return "unreached"
    await asyncio.sleep(90_000)
    await settle(kind, s, dev, what, sig, {})
    ids = [c.device_id for c in dev.children]
    if (who in ids) != (how == "added"):
        raise Violation(f"{what}: the children are {ids}", f"population {sig}")
    ctx.note(what)
    return "followed"


_SHAPES = []


def scenarios(tier):
    th = tier == "thorough"
    if th:
        todo = c17.kinds()
    else:
        if not _SHAPES:
            _SHAPES.extend(c26.shapes())
        todo = _SHAPES
    return [dict(name=name, kind=k, fix=f, th=th, budget=0) for k, f in todo for name in ("update", "first", "pairs", "cancel", "refresh", "cancel first")] + [
        dict(name="population", kind=k, fix=f, th=th, budget=0) for k, f in c17.kinds() if k != "iot" and hub(k, f)]


def hub(kind, fix):
    return kind != "smart/child" and len((c17.sim.CamSim if kind == "smartcam" else c17.sim.SmartSim).fixture(fix).children) > 0 and fix.startswith(("H", "KH"))


def run(ctx, p):
    kind, fix = p["kind"], p["fix"]

    async def main(loop):
        if p["name"] == "population":
            return await population(ctx, p)
        table = await ops(kind, fix)
        updates = [k for k in table if k[1] in UPDATES]
        commands = [k for k in table if k not in updates and not k[1].startswith(CALLER_SIDE)]
        if p["name"] == "update":
            pairs = [x for c in commands for x in ((c, (0, "update")), ((0, "update"), c))]
            pairs += [(u, v) for u in updates for v in updates]
            return await overlap(ctx, p, pairs, table)
        if p["name"] == "first":
            return await overlap(ctx, p, [(FIRST, FIRST)], table)
        if p["name"] == "pairs":
            if p["th"]:
                pairs = [(x, y) for x in commands for y in commands]
            else:
                pairs = [x for a, b in zip(commands, commands[1:]) for x in ((a, b), (b, a))]
            return await overlap(ctx, p, pairs, table) if pairs else "none"
        if p["name"] == "refresh":
            one = commands if p["th"] else list({(c[0], sig_of(c)): c for c in commands}.values())
            return await refresh(ctx, p, one, updates, table) if one else "none"
        if p["name"] == "cancel":
            return await cancel(ctx, p, commands + updates, table)
        return await cancel(ctx, p, [FIRST], table)

    return core.run_loop(ctx, main)
