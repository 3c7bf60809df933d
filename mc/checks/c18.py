"""C18: light commands reach the light exactly and leave it consistent."""

from __future__ import annotations

import asyncio
import copy
import warnings

from mc import core
from mc.core import Violation

core.install_datetime()

from mc import iotsim, sim  # noqa: E402

BOUNDS = {
    "quick": "every sequence of 2 light commands (on, off, brightness, colour, colour temperature, combined states, transitions, device-level and deprecated spellings, values at both limits and inside) on each light kind, from each start (off, on, colour, white, effect running, customised switch-on behaviour), with and without an update between; every value just outside its range and every unsupported command after every fourth first command; smooth transitions: every sequence of 3 settings",
    "thorough": "sequences of 3 commands (the first two from a third of the alphabet); every recorded light with sequences of 2",
}
ASSUMPTIONS = "setting brightness or colour of a light that is off may or may not turn it on; a combined state that switches the light off may or may not store the other values; giving hue and saturation alone may or may not leave white mode; setting colour ends a running effect; a light that is off shows no other state in `state`"

ATTRS = ("brightness", "hue", "saturation", "color_temp")


# ---------------------------------------------------------------- lights
class Smart:
    iot = dimmer = False

    def __init__(self, fix, child=False):
        self.sim = sim.SmartSim.fixture(fix)
        self.child = child
        self.dev = sim.smart_device(self.sim)

    @property
    def s(self):
        if not self.child:
            return self.sim
        return next(c for c in self.sim.children.values() if "brightness" in c.sys)

    @property
    def light(self):
        return self.dev if not self.child else next(c for c in self.dev.children if "brightness" in c.sys_info)

    def lamp(self):
        s = self.s.sys
        out = {k: s[k] for k in ATTRS if k in s}
        out["on"] = bool(s["device_on"])
        out["effect"] = self.effect()
        return out

    def effect(self):
        s = self.s.sys
        le = s.get("lighting_effect") or {}
        if le.get("enable"):
            return (le["id"], le["brightness"])
        if s.get("dynamic_light_effect_enable"):
            rid = s["dynamic_light_effect_id"]
            rule = next(r for r in self.sim.info["get_dynamic_light_effect_rules"]["rule_list"] if r["id"] == rid)
            return (rid, rule["color_status_list"][0][0])
        return None

    def start(self, **st):
        s = self.s.sys
        s["device_on"] = st.pop("on")
        if "lighting_effect" in s:
            s["lighting_effect"]["enable"] = 0
        if s.get("dynamic_light_effect_enable"):
            self.s.do_set_dynamic_light_effect_rule_enable({"enable": False})
        for k, v in st.items():
            if k in s:
                s[k] = v

    def rest(self):
        """Everything else the device stores."""
        d = {k: v for k, v in self.s.sys.items() if k not in ATTRS and k not in (
            "device_on", "lighting_effect", "dynamic_light_effect_enable", "dynamic_light_effect_id", "on_time")}
        return copy.deepcopy(d), copy.deepcopy(self.s.info.get("get_preset_rules"))


class Iot:
    iot, dimmer, child = True, False, False

    def __init__(self, fix):
        self.sim = iotsim.IotSim(iotsim.load("iot", fix))
        self.dev = iotsim.iot_device(self.sim)

    @property
    def light(self):
        return self.dev

    def lamp(self):
        li = self.sim.light
        out = {k: li[k] for k in ATTRS}
        out["on"] = bool(li["on_off"])
        out["effect"] = self.effect()
        return out

    def effect(self):
        e = self.sim.sys.get("lighting_effect_state") or {}
        return (e["id"], e["brightness"]) if e.get("enable") else None

    def start(self, **st):
        on = st.pop("on")
        if "lighting_effect_state" in self.sim.sys:
            self.sim.sys["lighting_effect_state"]["enable"] = 0
        self.sim.light.update(st, on_off=int(on))

    def rest(self):
        return copy.deepcopy({k: v for k, v in self.sim.sys.items() if k not in ("light_state", "lighting_effect_state", "on_time")})


class Dimmer(Iot):
    dimmer = True

    def lamp(self):
        s = self.sim.sys
        return dict(on=bool(s["relay_state"]), brightness=s["brightness"], effect=None)

    def start(self, **st):
        self.sim.sys["relay_state"] = int(st["on"])
        self.sim.sys["brightness"] = st["brightness"]

    def rest(self):
        return copy.deepcopy({k: v for k, v in self.sim.sys.items() if k not in ("relay_state", "brightness", "on_time")})


LIGHTS = {
    "colour": (Smart, "L530E(EU)_3.0_1.1.6.json"), "strip": (Smart, "L920-5(EU)_1.0_1.1.3.json"),
    "strip-temp": (Smart, "L930-5(EU)_1.0_1.2.5.json"), "white": (Smart, "L510E(US)_3.0_1.1.2.json"),
    "dimmer": (Smart, "S505D(US)_1.0_1.1.0.json"), "fan": (Smart, "KS240(US)_1.0_1.0.5.json", True),
    "iot-colour": (Iot, "KL130(EU)_1.0_1.8.8.json"), "iot-strip": (Iot, "KL430(US)_1.0_1.0.10.json"),
    "iot-temp": (Iot, "KL120(US)_1.0_1.8.6.json"), "iot-white": (Iot, "KL110(US)_1.0_1.8.11.json"),
    "iot-dimmer": (Dimmer, "HS220(US)_1.0_1.5.7.json"),
}


def caps_of(fix):
    """What the device reports it can do, from the recorded data."""
    cls, name, *child = fix
    if cls is Smart:
        s = Smart(name, *child).s
        comp = s.comps
        out = {"brightness"}
        if "color" in comp:
            out.add("hsv")
        rng = s.sys.get("color_temp_range")
        if "color_temperature" in comp and rng and rng[0] != rng[1]:
            out.add("ct")
        if "lighting_effect" in s.sys or "dynamic_light_effect_enable" in s.sys:
            out.add("effect")
        return out, (tuple(rng) if rng else None)
    s = cls(name).sim
    if cls is Dimmer:
        return {"brightness"}, None
    out = set()
    if s.sys["is_dimmable"]:
        out.add("brightness")
    if s.sys["is_color"]:
        out.add("hsv")
    if s.sys["is_variable_color_temp"]:
        out.add("ct")
    if "lighting_effect_state" in s.sys:
        out.add("effect")
    return out, "model"


# ---------------------------------------------------------------- commands
def commands(caps, rng, iot):
    """[(name, args...)] valid commands."""
    out = [("on",), ("off",)]
    if iot:
        out += [("on", 500), ("off", 500), ("on", 0), ("off", 0)]
    out += [("bri", v) for v in (0, 1, 37, 100)] + [("dep_bri", 21), ("feat_bri", 77)]
    if iot:
        out += [("bri", 64, 1000), ("bri", 0, 1000)]
    out += [("state", dict(light_on=True)), ("state", dict(light_on=False)), ("state", dict(light_on=True, brightness=42)),
            ("state", dict(brightness=58)), ("state", dict(brightness=0)), ("state", dict(light_on=True, brightness=0)),
            ("state", dict(light_on=False, brightness=33)), ("state", dict(brightness=71, transition=300)),
            ("state", dict(light_on=True, transition=300)), ("state", dict(light_on=False, transition=300)), ("state", dict())]
    if "hsv" in caps:
        out += [("hsv", 0, 0), ("hsv", 360, 100), ("hsv", 123, 45, 67), ("hsv", 1, 99, 100), ("hsv", 300, 10, 1), ("dep_hsv", 200, 50, None),
                ("state", dict(hue=11, saturation=22)), ("state", dict(hue=99, saturation=88, color_temp=0, brightness=55)),
                ("state", dict(light_on=False, hue=44, saturation=33))]
    if "ct" in caps:
        lo, hi = rng
        mid = (lo + hi) // 2
        out += [("ct", lo), ("ct", hi), ("ct", mid, 28), ("ct", mid + 7, 100), ("dep_ct", mid - 9, None),
                ("state", dict(color_temp=mid)), ("state", dict(color_temp=lo, brightness=63, light_on=True))]
    if "effect" in caps:
        out += [("effect", 1), ("effect", 2), ("effect", 0)]
    return out


def wrong(caps, rng, iot):
    """[(command, kinds of error)] which must be refused without sending."""
    bad = (ValueError, TypeError)
    out = [(("bri", v), bad) for v in (-1, 101, 50.5, "50")]
    out += [(("feat_bri", v), bad) for v in (-1, 101)]
    if "hsv" in caps:
        out += [(("hsv", *a), bad) for a in ((-1, 5), (361, 5), (5, -1), (5, 101), (5, 5, -1), (5, 5, 101), (1.5, 5), (5, 1.5), ("1", 5), (5, 5, 1.5))]
    else:
        out += [(("hsv", 5, 5), "unsupported"), (("hsv", 5, 5, 5), "unsupported")]
    if "ct" in caps:
        out += [(("ct", rng[0] - 1), bad), (("ct", rng[1] + 1), bad), (("ct", 0), bad), (("ct", rng[0], 101), bad), (("ct", rng[0], -1), bad)]
    else:
        out.append((("ct", 3000), "unsupported"))
    return out


def expect(st, op, dimmer, effect_names):
    """Attribute -> allowed values after the command, from state `st`."""
    exp = {k: {v} for k, v in st.items()}
    name, *a = op
    new = {}
    on = None
    if name in ("on", "off"):
        on = {name == "on"}
    elif name in ("bri", "dep_bri", "feat_bri"):
        if a[0] == 0:
            on = {False}
        else:
            on = {True} if st["on"] or (len(a) > 1 and a[1] is not None) else {True, False}
            new["brightness"] = a[0]
    elif name in ("hsv", "dep_hsv"):
        on = {True} if st["on"] else {True, False}
        new.update(hue=a[0], saturation=a[1], color_temp=0)
        if len(a) > 2 and a[2] is not None:
            new["brightness"] = a[2]
    elif name in ("ct", "dep_ct"):
        on = {True} if st["on"] else {True, False}
        new.update(color_temp=a[0])
        if len(a) > 1 and a[1] is not None:
            new["brightness"] = a[1]
    elif name == "state":
        s = dict(a[0])
        off = s.get("light_on") is False or s.get("brightness") == 0
        on = {not off}
        new = {k: v for k, v in s.items() if k in ATTRS and not (k == "brightness" and v == 0)}
        if off:
            exp.update({k: {st[k], v} for k, v in new.items() if k in st})
            new = {}
            exp["effect"] = {st["effect"], None}
        if "hue" in new and "color_temp" not in new and "color_temp" in st:
            exp["color_temp"] = {st["color_temp"], 0}
    exp["on"] = on
    eff = st["effect"]
    if eff is not None:
        if {"hue", "saturation", "color_temp"} & set(new):
            exp["effect"] = {None}
        elif "brightness" in new:
            if name == "state":  # the light's own brightness or that of the effect
                exp["effect"] = {eff, (eff[0], new["brightness"])}
                exp["brightness"] = {st["brightness"], new["brightness"]}
                return exp
            exp["effect"] = {(eff[0], new["brightness"])}
            del new["brightness"]
    for k, v in new.items():
        if k in exp:
            exp[k] = {v}
    return exp


def given_by(op):
    """The values a command names."""
    name, *a = op
    if name in ("on", "off", "effect"):
        return {}
    if name == "state":
        return {k: v for k, v in a[0].items() if k in ATTRS}
    if name.endswith("bri"):
        return {"brightness": a[0]}
    out = dict(hue=a[0], saturation=a[1], color_temp=0) if "hsv" in name else dict(color_temp=a[0])
    bri = a[2:] if "hsv" in name else a[1:]
    return out | ({"brightness": bri[0]} if bri and bri[0] is not None else {})


# ---------------------------------------------------------------- runs
class Run:
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        fix = p["fix"]
        fix = (globals()[fix[0]], *fix[1:])
        self.h = fix[0](*fix[1:])
        self.caps, self.rng = caps_of(fix)

    @property
    def mod(self):
        from kasa.module import Module
        return self.h.light.modules[Module.Light]

    async def setup(self):
        h = self.h
        st = self.p["start"]
        base = dict(on=st != "off", brightness=50, hue=240, saturation=75, color_temp=0)
        if st == "white":
            base.update(color_temp=3000, hue=0, saturation=0)
        h.start(**base)
        await h.dev.update()
        if self.rng == "model":
            self.rng = tuple(h.dev.features["color_temperature"].range) if "ct" in self.caps else None
        if st.startswith("effect"):
            await self.effect(int(st[-1]))
            await self.update()
        if st == "custom":
            h.sim.behave["soft_on"] = {"mode": "customize_preset", "index": 0}

    async def update(self):
        await asyncio.sleep(1)
        await self.h.dev.update()

    async def effect(self, n):
        from kasa.module import Module
        m = self.h.light.modules[Module.LightEffect]
        await m.set_effect(m.effect_list[n])

    def fade_of(self, op):
        """The transition a command asks a legacy light for."""
        name, *a = op
        if not self.h.iot:
            return None
        if name in ("on", "off"):
            return a[0] if a else None
        if name == "bri":
            return a[1] if len(a) > 1 else None
        if name == "hsv":
            return 250 if len(a) == 3 else None
        if name == "ct":
            return (0 if a[1] == 28 else 900) if len(a) > 1 else None
        return a[0].get("transition") if name == "state" else None

    def watch_fades(self):
        """What the legacy light is told about the duration of each change."""
        sim, self.fades = self.h.sim, []
        if self.h.iot:
            plain, dim = sim._transition, sim.dimmer__set_dimmer_transition

            def light(a):
                self.fades.append(a.get("transition_period"))
                return plain(a)

            def dimmer(who, a):
                self.fades.append(a["duration"])
                return dim(who, a)
            sim._transition, sim.dimmer__set_dimmer_transition = light, dimmer

    async def do(self, op):
        from kasa import LightState
        name, *a = op
        m, d = self.mod, self.h.light
        if name in ("on", "off"):
            kw = dict(transition=a[0]) if a else {}
            return await (d.turn_on if name == "on" else d.turn_off)(**kw)
        if name == "bri":
            return await m.set_brightness(a[0], **(dict(transition=a[1]) if len(a) > 1 else {}))
        if name == "feat_bri":
            return await d.features["brightness"].set_value(a[0])
        if name == "hsv":
            return await m.set_hsv(*a, **({"transition": self.fade_of(op)} if self.fade_of(op) is not None else {}))
        if name == "ct":
            return await m.set_color_temp(a[0], **(dict(brightness=a[1]) if len(a) > 1 else {}), **({"transition": self.fade_of(op)} if self.fade_of(op) is not None else {}))
        if name == "state":
            return await m.set_state(LightState(**a[0]))
        if name == "effect":
            return await self.effect(a[0])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if name == "dep_bri":
                return await d.set_brightness(a[0])
            if name == "dep_hsv":
                return await d.set_hsv(*a)
            if name == "dep_ct":
                return await d.set_color_temp(a[0], brightness=a[1])
        raise AssertionError(op)

    def check_read(self, where):
        """The library's view after an update is the device's."""
        lamp, m = self.h.lamp(), self.mod
        s = m.state
        if s.light_on is not lamp["on"] or self.h.light.is_on is not lamp["on"]:
            raise Violation(f"{where}: on reads {s.light_on}/{self.h.light.is_on}, the light is {lamp}", "on state")
        bri = lamp["brightness"] if lamp["effect"] is None else lamp["effect"][1]
        got = {"brightness": m.brightness}
        want = {"brightness": bri}
        if "hsv" in self.caps:
            hsv = m.hsv
            got.update(hue=hsv.hue, saturation=hsv.saturation)
            want.update(hue=lamp["hue"], saturation=lamp["saturation"])
            if lamp["effect"] is None:
                got["value"], want["value"] = hsv.value, bri
        if "ct" in self.caps:
            got["color_temp"], want["color_temp"] = m.color_temp, lamp["color_temp"]
        if got != want:
            raise Violation(f"{where}: the library shows {got}, the light is {lamp}", "light read back")
        for k in ATTRS:
            v = getattr(s, k)
            if v is not None and v != want.get(k) or (lamp["on"] and v is None and k in want):
                raise Violation(f"{where}: state shows {s}, the light is {lamp}", "light state")
        for f, k in (("brightness", "brightness"), ("color_temperature", "color_temp")):
            if k in want and self.h.light.features[f].value != want[k]:
                raise Violation(f"{where}: feature {f} shows {self.h.light.features[f].value}, the light is {lamp}", "light feature")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if self.h.light.brightness != bri:
                raise Violation(f"{where}: the deprecated brightness differs", "light feature")
        self.ctx.note(lamp["on"], lamp["brightness"], lamp.get("hue"), lamp.get("color_temp"), lamp["effect"])

    def stale(self, op, dirty):
        """Commands which are documented to work on what the last update showed."""
        name, *a = op
        if dirty & {"effect"}:
            return name in ("bri", "feat_bri", "dep_bri", "effect")
        if self.h.dimmer and dirty & {"brightness"}:
            return bool(a) and name == "on" or name == "state" and a[0].get("brightness") is None
        return bool(dirty) and name == "effect"

    async def valid(self, op, where, fresh, dirty):
        h = self.h
        st, rest, unknown = h.lamp(), h.rest(), len(h.sim.unknown_keys)
        if not fresh and self.stale(op, dirty):
            return False
        if op[0] == "effect":
            await self.do(op)
            return True
        custom = self.p["start"] == "custom" and not st["on"]
        exp = expect(st, op, h.dimmer, None)
        self.fades.clear()
        try:
            await self.do(op)
        except Exception as ex:  # noqa: BLE001
            raise Violation(f"{where} from {st}: raised {ex!r}", "refused command") from None
        now = h.lamp()
        if h.sim.unknown_keys[unknown:]:
            raise Violation(f"{where}: the device does not know {h.sim.unknown_keys[unknown:]}", "unknown parameters")
        fade = self.fade_of(op)
        if h.iot and any(f != (max(fade or 0, 1) if h.dimmer else fade) for f in self.fades) or fade is not None and not self.fades:
            raise Violation(f"{where}: the light changes within {self.fades} ms, {fade} were asked for", "transition given")
        if h.rest() != rest:
            raise Violation(f"{where}: other settings changed: {rest} to {h.rest()}", "other settings")
        if custom and now["on"]:
            pre = {k: h.sim.sys["preferred_state"][0][k] for k in ATTRS}
            given = given_by(op)
            if op[0] in ("on", "state") and not given:
                bad = {k: now[k] for k in ATTRS if now[k] != pre[k]}
            else:
                bad = {k: now[k] for k in given if now[k] != given[k]}
            if bad:
                raise Violation(f"{where} with a customised switch-on state {pre}: the light is {now}", "switch-on state")
            return True
        bad = {k: now[k] for k, v in exp.items() if now[k] not in v}
        if bad:
            raise Violation(f"{where} from {st}: the light is {now}, expected {exp}", f"light {sorted(bad)[0]}")
        return True

    async def invalid(self, op, err, where):
        from kasa import KasaException
        h = self.h
        n, st = h.sim.sends, h.lamp()
        try:
            await self.do(op)
        except Exception as ex:  # noqa: BLE001
            if not isinstance(ex, KasaException if err == "unsupported" else err):
                raise Violation(f"{where}: raised {ex!r}", "kind of error") from None
        else:
            raise Violation(f"{where} was accepted", "invalid value accepted")
        if h.sim.sends != n or h.lamp() != st:
            raise Violation(f"{where} was sent before it was refused", "invalid value sent")


async def sequence(r, p):
    await r.setup()
    r.watch_fades()
    r.check_read("at start")
    ctx = r.ctx
    ops = commands(r.caps, r.rng, r.h.iot)
    fresh, dirty, path = True, set(), []
    for k in range(p["depth"]):
        last = k == p["depth"] - 1
        cand = [("v", o) for o in (ops if last or p["depth"] < 3 else ops[::3])]
        if last and fresh and (p["deep"] or k == 0 or first % 4 == 0):
            cand += [("w", o, e) for o, e in wrong(r.caps, r.rng, r.h.iot)]
        if k == 0:
            cand = cand[p["part"]::p["parts"]]
        kind, op, *e = ctx.pick(cand, f"op{k}")
        if k == 0:
            first = ops.index(op)
        path.append(op)
        where = " then ".join(map(str, path)) + f" (start {p['start']})"
        if kind == "w":
            await r.invalid(op, e[0], where)
            return
        before = r.h.lamp()
        if not await r.valid(op, where, fresh, dirty):
            return
        now = r.h.lamp()
        dirty |= {x for x in now if now[x] != before.get(x)}
        fresh = last or ctx.pick([True, False], f"update{k}")
        if fresh:
            dirty = set()
            await r.update()
            r.check_read(where)


# ---------------------------------------------------------------- smooth transitions
TRANS = {"v1": "L530E(EU)_3.0_1.1.0.json", "v2": "S500D(US)_1.0_1.0.5.json", "v2-max": "HS220(US)_3.26_1.0.1.json", "v3": "L530E(EU)_3.0_1.1.6.json", "sysinfo": "KS240(US)_1.0_1.0.5.json"}


async def smooth(r, p):
    from kasa.module import Module
    ctx, h = r.ctx, r.h
    s = h.s
    await h.dev.update()
    m = h.light.modules[Module.LightTransition]

    def dev():
        if p["which"] == "v1":
            return dict(en=s.info["get_on_off_gradually_info"]["enable"])
        if "gradually_on_mode" in s.sys:
            y = s.sys
            return dict(on=(bool(y["gradually_on_mode"]), y["fade_on_time"]), off=(bool(y["gradually_off_mode"]), y["fade_off_time"]))
        g = s.info["get_on_off_gradually_info"]
        return {k: (g[k + "_state"]["enable"], g[k + "_state"]["duration"]) for k in ("on", "off")}

    def read(where):
        d = dev()
        if p["which"] == "v1":
            ok = m.enabled is d["en"] and h.light.features["smooth_transitions"].value is d["en"]
        else:
            on, off = (x[1] if x[0] else 0 for x in (d["on"], d["off"]))
            f = h.light.features
            ok = (m.turn_on_transition, m.turn_off_transition) == (on, off) and m.enabled == (d["on"][0] or d["off"][0]) and \
                (f["smooth_transition_on"].value, f["smooth_transition_off"].value) == (on, off)
        if not ok:
            raise Violation(f"{where}: the library shows something else than {d}", "transition read back")

    read("at start")
    if p["which"] == "v1":
        ops = [("enable", True), ("enable", False)]
    else:
        def most(sd):
            if "gradually_on_mode" in s.sys:
                return s.sys.get(f"max_fade_{sd}_time", 60)
            return s.info["get_on_off_gradually_info"][sd + "_state"].get("max_duration", 60)

        mx = {sd: most(sd) for sd in ("on", "off")}
        ops = [("enable", True), ("enable", False)]
        for sd in ("on", "off"):
            ops += [(sd, v) for v in (0, 1, 17, mx[sd], mx[sd] + 1, -1)]
            ops += [(sd + "f", v) for v in (0, 9, mx[sd], mx[sd] + 1, -1)]
    path = []
    for k in range(p["depth"]):
        op, v = ctx.pick(ops, f"op{k}")
        path.append((op, v))
        where = str(path)
        before, n = dev(), h.sim.sends
        if op == "enable":
            await m.set_enabled(v)
            want = dict(en=v) if p["which"] == "v1" else {x: (v, before[x][1]) for x in ("on", "off")}
        else:
            sd = op.rstrip("f") if op not in ("off", "offf") else "off"
            feat = op not in ("on", "off")
            call = h.light.features[f"smooth_transition_{sd}"].set_value if feat else getattr(m, f"set_turn_{sd}_transition")
            want = dict(before)
            if v > mx[sd] or (feat and v < 0):
                try:
                    await call(v)
                except ValueError:
                    if h.sim.sends != n:
                        raise Violation(f"{where}: refused after sending", "invalid value sent") from None
                else:
                    raise Violation(f"{where}: accepted", "invalid value accepted")
            else:
                await call(v)
                want[sd] = (True, v) if v > 0 else (False, before[sd][1])
        if dev() != want or h.sim.unknown_keys:
            raise Violation(f"{where}: the device has {dev()}, expected {want} {h.sim.unknown_keys}", "transition settings")
        await r.update()
        read(where)
        ctx.note(p["which"], str(dev()))


def run(ctx, p):
    async def main(loop):
        r = Run(ctx, p)
        await (smooth if p["name"] == "smooth" else sequence)(r, p)
        ctx.obs.append((p["name"], p["light"]))

    core.run_loop(ctx, main)


def every():
    """Every recorded light."""
    out = dict(LIGHTS)
    for kind, cls in (("smart", Smart), ("iot", Iot)):
        for f in sim.names(kind):
            d = sim.load(kind, f)
            if kind == "iot":
                s = d["system"]["get_sysinfo"]
                if "light_state" in s:
                    out[f] = (Iot, f)
                elif "brightness" in s:
                    out[f] = (Dimmer, f)
            elif {"brightness", "device_on"} <= set(d["get_device_info"]):
                out[f] = (Smart, f)
    return out


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for name, fix in (every() if deep else LIGHTS).items():
        caps, _ = caps_of(fix)
        starts = ["off", "colour"]
        if "ct" in caps:
            starts.append("white")
        if "effect" in caps:
            starts += ["effect1", "effect2"]
        if fix[0] is Iot and not Iot(fix[1]).sim.is_lightstrip:
            starts.append("custom")
        for st in starts:
            for depth in (2, 3) if deep and name in LIGHTS else (2,):
                for k in range(4):
                    out.append(dict(name="seq", light=name, fix=(fix[0].__name__, *fix[1:]), start=st, depth=depth, deep=deep, part=k, parts=4, budget=0))
    for w, f in TRANS.items():
        out.append(dict(name="smooth", light=w, which=w, fix=("Smart", f, *([True] if w == "sysinfo" else [])), depth=3, budget=0))
    return out
