"""C27: commands of devices and modules do exactly what they say."""

from __future__ import annotations

import asyncio
import copy

from mc import core
from mc.core import Violation

core.install_datetime()

from mc import cmds  # noqa: E402
from mc.checks import c17, c25  # noqa: E402

BOUNDS = {
    "quick": "every command (rules, statistics, names, restart and reset, networks, credentials, turn-on behaviours, dimmer buttons and times, ambient light and motion sensor, alarm, vacuum, dustbin, consumables, power protection, heating, camera) x its argument alphabet (ends, interiors, just outside) x the prior states it depends on, on every recorded device of a new shape and each of its children",
    "thorough": "on every recorded device and each of its children; and every ordered pair of commands, with an update between them, on one device per command set",
}
ASSUMPTIONS = "commands of light, preset, effect, time, energy reading and pairing modules are judged by C11 and C18 to C21"


def plan(kind, fix):
    """Labels of the commands of a device."""
    def go(loop):
        async def main():
            s, dev = cmds.build(kind, fix)
            await dev.update()
            return [(n, c.label) for n, c in cmds.commands(kind, s, dev)]
        return main()
    return core.run_loop(core.Ctx(), go)


def shapes():
    """One device for each set of commands."""
    seen, out = set(), []
    for kind, fix in c17.kinds():
        key = (kind, repr(plan(kind, fix)))
        if key not in seen:
            seen.add(key)
            out.append((kind, fix))
    return out


_SHAPES = []


def scenarios(tier):
    if not _SHAPES:
        _SHAPES.extend(shapes())
    th = tier == "thorough"
    out = [dict(name="one", kind=k, fix=f, budget=0) for k, f in (c17.kinds() if th else _SHAPES)]
    if th:
        out += [dict(name="two", kind=k, fix=f, budget=0) for k, f in _SHAPES]
    return out


def matches(got, want):
    if len(got) != len(want):
        return False
    for (w1, m1, a1), (w2, m2, a2) in zip(got, want):
        if (w1, m1) != (w2, m2):
            return False
        if a2 is not cmds.ANY and a1 not in (a2 if isinstance(a2, tuple) else (a2,)):
            return False
    return True


def first_diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=repr):
            if a.get(k, "absent") != b.get(k, "absent"):
                return first_diff(a.get(k, "absent"), b.get(k, "absent"), f"{path}.{k}")
    return path, a, b


async def obey(kind, s, dev, n, c):
    """Run one command and judge what it did."""
    d = [dev, *dev.children][n]
    st = cmds.snapshot(kind, s)
    mark = len(s.log)
    unknown = len(s.unknown_keys)
    err, res = None, None
    try:
        res = await c.call(d)
    except Exception as ex:  # noqa: BLE001
        err = ex
    what = f"{c.label} on {d.model}" + (f" (child {n})" if n else "")
    sig = c.label.split(" ")[0]
    if c.fails and not isinstance(err, c.fails):
        raise Violation(f"{what}: {'raised ' + repr(err) if err else 'succeeded'}, it has to be refused", f"not refused {sig}")
    if not c.fails and err:
        raise Violation(f"{what}: raised {err!r}", f"failed {sig}")
    if c.effect is not cmds.ANY:
        want = copy.deepcopy(st)
        if c.effect is not None:
            c.effect(want)
        got = cmds.snapshot(kind, s)
        if got != want:
            path, x, y = first_diff(got, want)
            raise Violation(f"{what}: afterwards {path} of the device is {str(x)[:300]}, it has to be {str(y)[:300]}", f"effect {sig}")
    sent = cmds.sent(kind, s, mark)
    if not matches(sent, c.sent or []):
        raise Violation(f"{what}: sent {sent}, it has to be {c.sent or []}", f"sent {sig}")
    if c.result is not cmds.ANY:
        ok = c.result(res) if callable(c.result) else res == c.result
        if not ok:
            raise Violation(f"{what}: returned {str(res)[:300]}" + ("" if callable(c.result) else f", it has to be {c.result}"), f"result {sig}")
    if len(s.unknown_keys) > unknown:
        raise Violation(f"{what}: sent what the device does not know: {s.unknown_keys[unknown:]}", f"unknown parameters {sig}")
    return what, sig


async def shows(kind, s, dev, what, sig):
    """After an update the object shows what a new one shows."""
    try:
        await dev.update()
    except Exception as ex:  # noqa: BLE001
        raise Violation(f"{what}: the update after it raised {ex!r}", f"update after {sig}")
    new = cmds.iotsim.iot_device(s) if kind == "iot" else c17.sim.smart_device(s)
    await new.update()
    x, y = c25.observe(dev, True), c25.observe(new, True)
    for k in sorted(set(x) | set(y), key=repr):
        if k[2] not in c25.FRESH_SKIP and x.get(k, "missing") != y.get(k, "missing"):
            raise Violation(f"{what}: after an update {k[2]} of {k[1]} is {str(x.get(k, 'missing'))[:200]}, a new object shows {str(y.get(k, 'missing'))[:200]}",
                            f"stale {k[1]}.{k[2]}")


async def rules_match(s, dev):
    for d in [dev, *dev.children]:
        who = c17.who_of("iot", dev, d)
        for name, key in cmds.RULES.items():
            m = next((v for k, v in d.modules.items() if str(k) == name), None)
            if m is None or not m.is_supported:
                continue
            got = [(r.id, r.name, r.enable, r.wday, r.repeat, r.smin, None if r.sact is None else r.sact.value) for r in m.rules]
            want = [(r["id"], r["name"], r["enable"], r["wday"], r["repeat"], r["smin"], r["sact"]) for r in getattr(s, key)[who]]
            if got != want:
                raise Violation(f"{name} of {who} shows {got}, the device holds {want}", f"rules {name}")


def run(ctx, p):
    kind, fix = p["kind"], p["fix"]

    async def main(loop):
        labels = _PLANS.get((kind, fix))
        if labels is None:
            s, dev = cmds.build(kind, fix)
            await dev.update()
            labels = _PLANS[kind, fix] = [(n, c.label) for n, c in cmds.commands(kind, s, dev)]
        if not labels:
            return "nothing"
        k = 2 if p["name"] == "two" else 1
        todo = [ctx.pick(labels, f"command {i + 1}") for i in range(k)]
        s, dev = cmds.build(kind, fix)
        await dev.update()
        for i, key in enumerate(todo):
            c = dict((((n, c.label), c)) for n, c in cmds.commands(kind, s, dev)).get(tuple(key))
            if c is None:
                return "gone"
            if c.pre:
                c.pre(s)
                await asyncio.sleep(c.wait)
                await dev.update()
            if kind == "iot" and not i:
                await rules_match(s, dev)
            what, sig = await obey(kind, s, dev, key[0], c)
            ctx.note(what)
            if c.shown:
                await shows(kind, s, dev, what, sig)
        return "ok"

    return core.run_loop(ctx, main)


_PLANS = {}
