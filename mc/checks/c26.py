"""C26: a command that the device refuses or never answers is reported, and the next update shows the truth."""

from __future__ import annotations

import asyncio
import datetime as _d

from mc import core
from mc.core import Violation

core.install_datetime()

from mc import cmds  # noqa: E402
from mc.checks import c17, c25, c27  # noqa: E402

BOUNDS = {
    "quick": "every command, settable feature (two values each), action, effect, preset and light command of every recorded device of a new shape and each of its children x every request of it refused with an error; x every exchange of it lost before the device gets it, or its answer lost, there and on every retry; with an update straight afterwards compared with a new object",
    "thorough": "on every recorded device; and additionally one lost exchange that the retry repairs",
}
ASSUMPTIONS = "a refused request has no effect on the device; commands that a dying device may leave without an answer by design (joining a network, pairing) are judged by C11 and C24"


# ---------------------------------------------------------------- commands
def feature_values(f):
    T = f.type.name
    if T == "Action":
        return [None]
    if T not in ("Switch", "Number", "Choice"):
        return []
    vals = []
    for v in c17.good_values(f, "quick"):
        if v != c17.norm(f.value) and v not in vals:
            vals.append(v)
    return vals[:1] + vals[-1:] if len(vals) > 1 else vals


SKIP_FEATURES = {"pair", "unpair"}


def all_commands(kind, s, dev):
    """{(device index, label): coroutine function of the device}"""
    out = {}
    for n, c in cmds.commands(kind, s, dev):
        if not c.fails:
            out[n, c.label] = (c.call, c.pre)
    for n, d in enumerate([dev, *dev.children]):
        for f in d.features.values():
            if f.attribute_setter is None or f.id in SKIP_FEATURES:
                continue
            for v in feature_values(f):
                out[n, f"feature {f.id}={v!r}"] = (lambda x, i=f.id, v=v: x.features[i].set_value(v), None)
        mods = {str(k): m for k, m in d.modules.items()}

        def m(name):
            return lambda x: next(v for k, v in x.modules.items() if str(k) == name)

        def add(label, fn, n=n):
            out[n, label] = (fn, None)
        if "Light" in mods:
            light = mods["Light"]
            from kasa import LightState
            add("Light.set_state off", lambda x: m("Light")(x).set_state(LightState(light_on=False)))
            add("Light.set_state on", lambda x: m("Light")(x).set_state(LightState(light_on=True)))
            if light.has_feature("brightness"):
                add("Light.set_brightness", lambda x: m("Light")(x).set_brightness(37))
                add("Light.set_state brightness", lambda x: m("Light")(x).set_state(LightState(light_on=True, brightness=11)))
            if light.has_feature("hsv"):
                add("Light.set_hsv", lambda x: m("Light")(x).set_hsv(123, 45, 67))
            if light.has_feature("color_temp"):
                add("Light.set_color_temp", lambda x: m("Light")(x).set_color_temp(3000))
        if "LightEffect" in mods:
            e = mods["LightEffect"]
            for name in (e.effect_list[0], e.effect_list[-1]):
                add(f"LightEffect.set_effect {name}", lambda x, name=name: m("LightEffect")(x).set_effect(name))
            if e.has_custom_effects:
                custom = {"brightness": 50, "bAdjusted": 1, "custom": 1, "enable": 1, "name": "mine", "id": "xyz", "segments": [0], "type": "sequence"}
                add("LightEffect.set_custom_effect", lambda x: m("LightEffect")(x).set_custom_effect(dict(custom)))
        if "LightPreset" in mods:
            p = mods["LightPreset"]
            for name in p.preset_list[1:2] + p.preset_list[-1:]:
                add(f"LightPreset.set_preset {name}", lambda x, name=name: m("LightPreset")(x).set_preset(name))
            if p.has_save_preset and len(p.preset_list) > 1:
                from kasa import LightState
                add("LightPreset.save_preset", lambda x, name=p.preset_list[1]: m("LightPreset")(x).save_preset(name, LightState(brightness=23)))
        if "Time" in mods:
            when = _d.datetime(2024, 2, 29, 12, 34, 56, tzinfo=_d.timezone.utc)
            add("Time.set_time", lambda x: m("Time")(x).set_time(when))
        for on in (True, False) if kind == "iot" or "state" in d.features and "TemperatureControl" not in mods else ():
            out.setdefault((n, f"set_state {on}"), (lambda x, on=on: x.set_state(on), None))
    return out


# ---------------------------------------------------------------- faults
REFUSED = {"iot": ({"err_code": -3, "err_msg": "invalid argument"}, {"err_code": 1}), "smart": (-1008, -40101), "smartcam": (-1008, -40210)}


class Line:
    """Counts what a command asks for and spoils one of it."""

    def __init__(self, kind, s):
        self.kind, self.s = kind, s
        self.calls = self.sends = 0
        self.mode = None

    def arm(self, mode=None, k=0, forever=True, answer=None):
        self.calls = self.sends = 0
        self.mode, self.k, self.forever, self.refusal = mode, k, forever, answer
        self.hit = []
        self.s.fault = self.fault
        self.s.on_send = self.send

    def disarm(self):
        self.s.fault = self.s.on_send = None

    def fault(self, *a):
        n = self.calls
        self.calls += 1
        if self.mode == "refused" and n == self.k:
            self.hit.append(a)
            return dict(self.refusal) if self.kind == "iot" else self.refusal
        return None

    def send(self, req):
        from kasa.exceptions import TimeoutError as KasaTimeout, _ConnectionError
        n = self.sends
        self.sends += 1
        if self.mode in (None, "refused") or n < self.k or (n > self.k and not self.forever):
            return None
        self.hit.append(req)
        if self.mode == "lost":
            raise _ConnectionError("lost")
        self.s.answer(req)  # the device does it, the answer is lost
        raise KasaTimeout("lost answer")


def shapes():
    seen, out = set(), []
    for kind, fix in c17.kinds():
        def go(loop):
            async def main():
                s, dev = cmds.build(kind, fix)
                await dev.update()
                return sorted((type([dev, *dev.children][n]).__module__, label) for n, label in all_commands(kind, s, dev))
            return main()
        key = (kind, repr(core.run_loop(core.Ctx(), go)))
        if key not in seen:
            seen.add(key)
            out.append((kind, fix))
    return out


_SHAPES = []


def scenarios(tier):
    th = tier == "thorough"
    if th:
        todo = c17.kinds()
    else:
        if not _SHAPES:
            _SHAPES.extend(shapes())
        todo = _SHAPES
    return [dict(name=name, kind=k, fix=f, budget=0) for k, f in todo for name in ("persisting", *(("once",) if th else ()))]


async def play(kind, fix, key, mode, k, forever, answer=None):
    """Run one command under one fault; (calls, sends, error, simulator, device)"""
    s, dev = cmds.build(kind, fix)
    await dev.update()
    fn, pre = all_commands(kind, s, dev)[key]
    if pre:
        pre(s)
        await dev.update()
    d = [dev, *dev.children][key[0]]
    line = Line(kind, s)
    line.arm(mode, k, forever, answer)
    err = None
    try:
        await fn(d)
    except Exception as ex:  # noqa: BLE001
        err = ex
    line.disarm()
    return line, err, s, dev, d


_PLAN = {}


def tolerated(kind, d, label, line):
    """Commands that report otherwise by design."""
    if "check_latest_firmware" in label or label.startswith(("wifi_scan", "wifi_join")):
        return True
    return False


def run(ctx, p):
    from kasa import KasaException
    kind, fix = p["kind"], p["fix"]

    async def main(loop):
        if (kind, fix) not in _PLAN:
            s, dev = cmds.build(kind, fix)
            await dev.update()
            _PLAN[kind, fix] = {key: None for key in all_commands(kind, s, dev)}
        plan = _PLAN[kind, fix]
        if not plan:
            return "nothing"
        key = ctx.pick(list(plan), "command")
        if plan[key] is None:
            line, err, s, dev, d = await play(kind, fix, key, None, 0, True)
            what = f"{key[1]} on {d.model}" + (f" (child {key[0]})" if key[0] else "")
            if err is not None:
                raise Violation(f"{what}: raised {err!r}", f"failed {key[1].split(' ')[0]}")
            plan[key] = (line.calls, line.sends)
        calls, sends = plan[key]
        if p["name"] == "once":
            faults = [(mode, k, None) for mode in ("lost", "answer lost") for k in range(sends)]
        else:
            faults = [("refused", k, a) for k in range(calls) for a in REFUSED[kind.split("/")[0]]]
            faults += [(mode, k, None) for mode in ("lost", "answer lost") for k in range(sends)]
        if not faults:
            return "silent"
        mode, k, answer = ctx.pick(faults, "fault")
        line, err, s, dev, d = await play(kind, fix, key, mode, k, p["name"] != "once", answer)
        what = f"{key[1]} on {d.model}" + (f" (child {key[0]})" if key[0] else "") + f", {mode} at {k} {str(line.hit)[:200]}"
        sig = key[1].split(" ")[0] if not key[1].startswith("feature") else key[1].split("=")[0]
        if not line.hit:
            raise core.HarnessError(f"{what}: the fault was never met")
        if err is not None and not isinstance(err, KasaException):
            raise Violation(f"{what}: raised {err!r}, which is no error of the library", f"foreign error {sig}")
        if p["name"] == "once":
            if err is not None:
                raise Violation(f"{what}: raised {err!r} although the retry was answered", f"not retried {sig}")
        elif err is None and not tolerated(kind, d, key[1], line):
            raise Violation(f"{what}: reported success", f"silent {mode} {sig}")
        try:
            await dev.update()
        except Exception as ex:  # noqa: BLE001
            raise Violation(f"{what}: the update afterwards raised {ex!r}", f"update after {sig}") from None
        new = cmds.iotsim.iot_device(s) if kind == "iot" else c17.sim.smart_device(s)
        await new.update()
        x, y = c25.observe(dev, True), c25.observe(new, True)
        for o in sorted(set(x) | set(y), key=repr):
            if o[2] not in c25.FRESH_SKIP and x.get(o, "missing") != y.get(o, "missing"):
                raise Violation(f"{what}: after an update {o[2]} of {o[1]} is {str(x.get(o, 'missing'))[:200]}, a new object shows {str(y.get(o, 'missing'))[:200]}",
                                f"stale {o[1]}.{o[2]}")
        ctx.note(what, type(err).__name__)
        return "reported" if err else "tolerated"

    return core.run_loop(ctx, main)
