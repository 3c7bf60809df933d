"""C19: light presets and effects: the named one is applied, saved and reported."""

from __future__ import annotations

import asyncio
import base64
import copy
import itertools

from mc import core
from mc.core import Violation

core.install_datetime()

from mc import iotsim, sim  # noqa: E402

BOUNDS = {
    "quick": "every preset table of 1..3 slots over {colour, white, effect} (brightness tables of 0..4) on each preset-capable light kind; every sequence of 2 operations over {apply each name, save two states under each name, unknown names, other light commands, another app editing or switching}; every built-in effect, every ordered pair of effect operations, scene names in every stored form",
    "thorough": "tables up to 4 slots, sequences of 3 operations on tables up to 2 slots",
}
ASSUMPTIONS = "equal presets cannot be told apart, so any of them may be reported; setting hue, saturation or colour temperature ends a running effect; the n-th listed preset name stands for the n-th stored preset that is not an effect"

ATTRS = ("brightness", "hue", "saturation", "color_temp")
NEW = [dict(brightness=37, hue=77, saturation=41, color_temp=0), dict(brightness=64, hue=0, saturation=0, color_temp=3300)]
NEWB = [dict(brightness=37), dict(brightness=64)]
BAD = ["", "no such preset", "Light preset 99", "light preset 1", "Light preset 0"]


def slot(kind, n):
    if kind == "C":
        return dict(brightness=20 + n, hue=10 * n + 5, saturation=50 + n, color_temp=0)
    if kind == "W":
        return dict(brightness=40 + n, hue=0, saturation=100, color_temp=2700 + 100 * n)
    return None


EFFECT_SLOT = {"lighting_effect": {"brightness": 100, "custom": 0, "enable": 1, "id": "TapoStrip_5zkiG6avJ1IbhjiZbRlWvh",
                                   "name": "Christmas", "type": "random"}}


class Smart:
    kind = "smart"

    def __init__(self, fix, child=None):
        self.sim = sim.SmartSim.fixture(fix)
        self.fix, self.child = fix, child
        self.dev = None

    def make(self):
        self.dev = sim.smart_device(self.sim)
        return self.dev

    @property
    def s(self):
        if self.child is None:
            return self.sim
        return next(c for c in self.sim.children.values() if "brightness" in c.sys)

    @property
    def light(self):
        return self.dev if self.child is None else next(c for c in self.dev.children if "brightness" in c.sys_info)

    # preset table on the device
    def table(self, kinds):
        if self.child is not None:
            self.s.sys["preset_state"] = [dict(brightness=10 + 7 * n) for n, _ in enumerate(kinds)]
        elif kinds[:1] == "b" or not kinds:
            key = "brightness" if "brightness" in self.s.info["get_preset_rules"] else "states"
            self.s.info["get_preset_rules"] = {key: [10 + 7 * n for n, _ in enumerate(kinds)]}
        else:
            st = [copy.deepcopy(EFFECT_SLOT) if k == "E" else slot(k, n) for n, k in enumerate(kinds)]
            old = self.s.info["get_preset_rules"]
            new = {"states": st}
            if "start_index" in old:
                new.update(start_index=0, sum=len(st))
            self.s.info["get_preset_rules"] = new

    def slots(self):
        """[(position, state)] of the presets that are not effects, all slots."""
        if self.child is not None:
            allp = self.s.sys["preset_state"]
        else:
            r = self.s.info["get_preset_rules"]
            allp = r["states"] if "states" in r else [dict(brightness=b) for b in r["brightness"]]
        return [(n, p) for n, p in enumerate(allp) if "brightness" in p], copy.deepcopy(allp)

    def lamp(self):
        s = self.s.sys
        out = {k: s[k] for k in ATTRS if k in s}
        out["on"] = s["device_on"]
        return out

    def set_lamp(self, state):
        self.s.sys.update(device_on=True, **{k: v for k, v in state.items() if k in self.s.sys})

    def effect_on(self):
        s = self.s.sys
        return bool(s.get("dynamic_light_effect_enable") or (s.get("lighting_effect") or {}).get("enable"))

    def external(self, n, state):
        if self.child is not None:
            self.s.sys["preset_state"][n] = copy.deepcopy(state)
        else:
            r = self.s.info["get_preset_rules"]
            if "states" in r:
                r["states"][n] = copy.deepcopy(state)
            else:
                r["brightness"][n] = state["brightness"]

    wait = 61


class Iot:
    kind = "iot"
    child = None
    wait = 1

    def __init__(self, fix):
        self.sim = iotsim.IotSim(iotsim.load("iot", fix))
        self.fix = fix

    def make(self):
        self.dev = iotsim.iot_device(self.sim)
        return self.dev

    @property
    def light(self):
        return self.dev

    def table(self, kinds):
        out = []
        for n, k in enumerate(kinds):
            if k == "E":
                out.append(dict(brightness=100, custom=0, id="QglBhMShPHUAuxLqzNEefFrGiJwahOmz", index=n, mode=2))
            elif k == "b":
                out.append(dict(brightness=10 + 7 * n, hue=0, saturation=0, color_temp=2700, index=n))
            else:
                out.append(dict(slot(k, n), index=n))
        self.sim.sys["preferred_state"] = out

    def slots(self):
        allp = self.sim.sys["preferred_state"]
        return [(n, {k: v for k, v in p.items() if k in ATTRS}) for n, p in enumerate(allp) if "id" not in p], copy.deepcopy(allp)

    def lamp(self):
        li = self.sim.light
        out = {k: li[k] for k in ATTRS if k in li}
        out["on"] = bool(li["on_off"])
        return out

    def set_lamp(self, state):
        self.sim.light.update(on_off=1, **{k: v for k, v in state.items() if k in self.sim.light})

    def effect_on(self):
        return bool((self.sim.sys.get("lighting_effect_state") or {}).get("enable"))

    def external(self, n, state):
        self.sim.sys["preferred_state"][n] = dict(copy.deepcopy(state), index=n)


LIGHTS = {
    "colour": (Smart, ("L530E(EU)_3.0_1.1.6.json",), "CW"),
    "strip": (Smart, ("L920-5(EU)_1.0_1.1.3.json",), "CWE"),
    "strip-temp": (Smart, ("L930-5(EU)_1.0_1.2.5.json",), "CWE"),
    "white": (Smart, ("L510E(US)_3.0_1.1.2.json",), "b"),
    "dimmer": (Smart, ("S505D(US)_1.0_1.1.0.json",), "b"),
    "fan": (Smart, ("KS240(US)_1.0_1.0.5.json", "light"), "b"),
    "iot-colour": (Iot, ("KL130(EU)_1.0_1.8.8.json",), "CW"),
    "iot-strip": (Iot, ("KL430(US)_1.0_1.0.10.json",), "CWE"),
    "iot-temp": (Iot, ("KL120(US)_1.0_1.8.6.json",), "W"),
    "iot-white": (Iot, ("KL110(US)_1.0_1.8.11.json",), "b"),
}


# ---------------------------------------------------------------- presets
class Presets:
    def __init__(self, ctx, p):
        self.ctx = ctx
        cls, args, _ = LIGHTS[p["light"]]
        self.h = cls(*args)
        self.h.table(p["table"])
        self.new = NEWB if "b" in p["table"] else NEW

    @property
    def mod(self):
        from kasa.module import Module
        return self.h.light.modules[Module.LightPreset]

    def visible(self, state):
        """The part of a preset this light can show."""
        out = {"brightness": state["brightness"]}
        f = self.h.light.features
        if "hsv" in f:
            out.update(hue=state.get("hue"), saturation=state.get("saturation"))
        if "color_temperature" in f:
            out["color_temp"] = state.get("color_temp")
        return out

    def check_listing(self, where):
        slots, _ = self.h.slots()
        m = self.mod
        names = list(m.preset_list)
        if len(names) != len(slots) + 1 or len(set(names)) != len(names) or names[0] != m.PRESET_NOT_SET:
            raise Violation(f"{where}: presets {names} for slots {slots}", "preset names")
        for got, (_, want) in zip(m.preset_states_list, slots, strict=True):
            g = {k: getattr(got, k) for k in ATTRS if getattr(got, k) is not None}
            if g != want:
                raise Violation(f"{where}: preset shown as {g}, the device has {want}", "preset states")
        if len(slots):
            if self.h.light.features["light_preset"].choices != names:
                raise Violation(f"{where}: choices differ from {names}", "preset choices")
        return names[1:]

    def check_active(self, where, name=None):
        m = self.mod
        shown = m.preset
        slots, _ = self.h.slots()
        by = dict(zip(m.preset_list[1:], (s for _, s in slots), strict=True))
        lamp = self.h.lamp()
        if self.h.effect_on():
            return
        want = {k: lamp[k] for k in self.visible(dict(brightness=0))}
        match = [n for n, s in by.items() if self.visible(s) == want]
        if (shown in by) != bool(match) or (match and shown not in match):
            raise Violation(f"{where}: {shown!r} is reported active, the light is at {want}, matching {match}", "active preset")
        if name is not None and shown not in match:
            raise Violation(f"{where}: {shown!r} is reported active", "active preset")
        if by and self.h.light.features["light_preset"].value != shown:
            raise Violation(f"{where}: the feature shows {self.h.light.features['light_preset'].value!r}", "active preset")

    async def update(self):
        await asyncio.sleep(1)
        await self.h.dev.update()

    async def op(self, names, depth):
        from kasa import LightState
        h, m = self.h, self.mod
        ops = [("apply", n) for n in names] + [("save", n, i) for n in names for i in (0, 1)]
        ops += [("feature", names[-1])] if names else []
        ops += [("none",), ("bad",), ("badsave",), ("dim",)]
        if names:
            ops.append(("edited",))
            ops += [("like", n, k) for n in names for k in self.visible(dict(brightness=0)) if not h.effect_on()]
        if "light_effect" in h.light.features:
            ops.append(("effect",))
        o = self.ctx.pick(ops, f"op{depth}")
        where = " ".join(map(str, o))
        slots, before = h.slots()
        pos = dict(zip(names, (n for n, _ in slots), strict=True))
        lamp, n = h.lamp(), h.sim.sends
        if o[0] in ("apply", "feature"):
            if o[0] == "apply":
                await m.set_preset(o[1])
            else:
                await h.light.features["light_preset"].set_value(o[1])
            want = before[pos[o[1]]]
            now = h.lamp()
            bad = {k: now.get(k) for k in self.visible(want) if now.get(k) != want[k]}
            if bad or not now["on"]:
                raise Violation(f"{where}: the light is at {now}, the preset is {want}", "preset applied")
            await self.update()
            self.check_active(where, o[1])
            if h.effect_on() and "C" in LIGHTS[self.p["light"]][2]:
                raise Violation(f"{where}: the effect is still running", "preset applied")
        elif o[0] == "save":
            new = self.new[o[2]]
            await m.save_preset(o[1], LightState(**new))
            want = copy.deepcopy(before)
            keep = {"index": want[pos[o[1]]]["index"]} if h.kind == "iot" else {}
            want[pos[o[1]]] = dict(new, **keep)
            if h.kind == "iot" and h.slots()[1] != want and "mode" in before[pos[o[1]]]:
                want[pos[o[1]]]["mode"] = before[pos[o[1]]]["mode"]
            if h.slots()[1] != want:
                raise Violation(f"{where}: the device's presets are {h.slots()[1]}, expected {want}", "preset saved")
            if h.lamp() != lamp:
                raise Violation(f"{where}: the light changed", "preset saved")
            await self.update()
        elif o[0] == "none":
            await m.set_preset(m.PRESET_NOT_SET)
            await self.update()
        elif o[0] in ("bad", "badsave"):
            for b in BAD + ([m.PRESET_NOT_SET] if o[0] == "badsave" else []):
                try:
                    if o[0] == "bad":
                        await m.set_preset(b)
                    else:
                        await m.save_preset(b, LightState(**self.new[0]))
                except ValueError:
                    pass
                except Exception as ex:  # noqa: BLE001
                    from kasa import KasaException
                    if names or not isinstance(ex, KasaException):
                        raise Violation(f"{where} {b!r} raised {ex!r}", "unknown preset") from None
                else:
                    raise Violation(f"{where} {b!r} was accepted", "unknown preset")
                if h.sim.sends != n:
                    raise Violation(f"{where} {b!r} was sent", "unknown preset")
        elif o[0] == "dim":
            await h.light.features["brightness"].set_value(55)
            await self.update()
        elif o[0] == "like":  # the app sets almost the preset
            state = dict(before[pos[o[1]]])
            if o[2] == "color_temp":
                state[o[2]] = (state[o[2]] or 2600) + 300
            else:
                state[o[2]] = state[o[2]] + 33 if state[o[2]] < 50 else state[o[2]] - 1
            h.set_lamp(state)
            await self.update()
        elif o[0] == "edited":
            k = len(names) - 1
            h.external(pos[names[k]], self.new[1])
            await asyncio.sleep(h.wait)
            await h.dev.update()
        elif o[0] == "effect":
            await h.light.features["light_effect"].set_value(h.light.features["light_effect"].choices[-1])
            await self.update()
            if not h.effect_on():
                raise Violation(f"{where}: no effect is running", "effect applied")
        if h.sim.unknown_keys:
            raise Violation(f"{where}: the device does not know {h.sim.unknown_keys}", "unknown keys")
        if o[0] not in ("save", "edited") and h.slots()[1] != before:
            raise Violation(f"{where} changed the stored presets", "presets kept")
        self.check_listing(where)
        self.check_active(where)
        self.ctx.note(*o)
        return self.mod.preset_list[1:]


def presets(ctx, p):
    async def main(loop):
        t = Presets(ctx, p)
        t.p = p
        await t.h.make().update()
        from kasa.module import Module
        if Module.LightPreset not in t.h.light.modules:
            raise Violation("the light has no presets", "preset names")
        names = t.check_listing("first update")
        t.check_active("first update")
        for d in range(p["depth"]):
            names = await t.op(names, d)
        ctx.obs.append((p["light"], len(names)))
    core.run_loop(ctx, main)


# ---------------------------------------------------------------- effects
def b64(s):
    return base64.b64encode(s.encode()).decode()


# stored scene name -> shown
NAMES = [("", None), (b64("Movie night"), "Movie night"), (b64("Fête"), "Fête"), ("Sunset", "Sunset"), ("Cozy", "Cozy"),
         ("Night sky", "Night sky"), ("Soirée", "Soirée"), (b64("Off-peak"), "Off-peak"), ("Coolness", "Coolness")]


class Scenes:
    """A SMART colour bulb with stored scenes."""

    def __init__(self, ctx, p):
        self.ctx = ctx
        self.h = Smart("L530E(EU)_3.0_1.1.6.json")
        rules = self.h.sim.info["get_dynamic_light_effect_rules"]["rule_list"]
        self.names = {}
        for r, i in zip(rules, p["scenes"], strict=True):
            stored, shown = NAMES[i]
            r["scene_name"] = stored
            self.names[r["id"]] = shown or {"L1": "Party", "L2": "Relax"}[r["id"]]
        if p.get("third"):
            r = copy.deepcopy(rules[0])
            r["id"], r["scene_name"] = "L7", ""
            rules.append(r)
            self.h.sim.info["get_dynamic_light_effect_rules"].update(sum=3)
            self.names["L7"] = None

    def rules(self):
        return {r["id"]: copy.deepcopy(r) for r in self.h.sim.info["get_dynamic_light_effect_rules"]["rule_list"]}

    def active(self):
        s = self.h.sim.sys
        return s["dynamic_light_effect_id"] if s["dynamic_light_effect_enable"] else None

    def external(self, rid):
        self.h.sim.do_set_dynamic_light_effect_rule_enable({"enable": rid is not None, **({"id": rid} if rid else {})})

    def bright(self, rid):
        return self.rules()[rid]["color_status_list"][0][0]

    async def run(self, loop, depth):
        from kasa import KasaException
        from kasa.module import Module
        dev = self.h.make()
        await dev.update()
        if Module.LightEffect not in dev.modules:
            raise Violation("the light has no effects", "effect list")
        m = dev.modules[Module.LightEffect]
        off = m.LIGHT_EFFECTS_OFF
        self.off = off

        def check(where):
            lst = list(m.effect_list)
            ids = list(self.names)
            if lst[0] != off or len(lst) != len(ids) + 1 or any(
                    self.names[i] is not None and self.names[i] != n for i, n in zip(ids, lst[1:], strict=True)):
                raise Violation(f"{where}: effects {lst}, expected {list(self.names.values())}", "effect list")
            by = dict(zip(ids, lst[1:], strict=True))
            a = self.active()
            want = off if a is None else by[a]
            if m.effect != want or m.is_active != (a is not None) or dev.features["light_effect"].value != want:
                raise Violation(f"{where}: {m.effect!r} is reported, the device runs {want!r}", "active effect")
            try:
                b = dev.modules[Module.Light].brightness
            except Exception as ex:  # noqa: BLE001
                raise Violation(f"{where}: the brightness cannot be read: {ex!r}", "effect brightness") from None
            wb = self.bright(a) if a is not None else self.h.sim.sys["brightness"]
            if b != wb:
                raise Violation(f"{where}: brightness {b} shown, the device has {wb}", "effect brightness")
            return by

        by = check("first update")
        ids = list(by)
        for d in range(depth):
            ops = [("set", i, b) for i in ids for b in (None, 33)] + [("off",), ("bad",), ("dim", 21), ("dim", 88), ("colour",)]
            ops += [("app", i) for i in ids] + [("app", None), ("feature", ids[-1])]
            if "L9" not in self.names:
                ops.append(("create",))
            o = self.ctx.pick(ops, f"op{d}")
            where = " ".join(map(str, o))
            before, act, sysb = self.rules(), self.active(), self.h.sim.sys["brightness"]
            shown = dev.modules[Module.Light].brightness
            n = self.h.sim.sends
            want, wact = copy.deepcopy(before), act

            def level(rid, b):
                for c in want[rid]["color_status_list"]:
                    c[0] = b

            if o[0] in ("set", "feature"):
                b = o[2] if o[0] == "set" else None
                if o[0] == "set":
                    await m.set_effect(by[o[1]], **({} if b is None else {"brightness": b}))
                else:
                    await dev.features["light_effect"].set_value(by[o[1]])
                wact = o[1]
                level(o[1], shown if b is None else b)
            elif o[0] == "off":
                await m.set_effect(off)
                wact = None
            elif o[0] == "bad":
                for x in ("", "no such effect", by[ids[0]] + "x", "off"):
                    try:
                        await m.set_effect(x)
                    except ValueError:
                        pass
                    else:
                        raise Violation(f"effect {x!r} was accepted", "unknown effect")
                if self.h.sim.sends != n:
                    raise Violation("an unknown effect was sent", "unknown effect")
            elif o[0] == "dim":
                await dev.modules[Module.Light].set_brightness(o[1])
                if act is not None:
                    level(act, o[1])
                else:
                    sysb = o[1]
            elif o[0] == "colour":
                await dev.modules[Module.Light].set_hsv(120, 60)
                wact = None
            elif o[0] == "app":
                self.external(o[1])
                wact = o[1]
            elif o[0] == "create":
                # a new effect is stored and started in the app
                r = copy.deepcopy(before[ids[0]])
                r["id"], r["scene_name"] = "L9", b64("Brand new")
                r["color_status_list"] = [[61, *c[1:]] for c in r["color_status_list"]]
                self.h.sim.info["get_dynamic_light_effect_rules"]["rule_list"].append(r)
                self.h.sim.info["get_dynamic_light_effect_rules"]["sum"] += 1
                self.external("L9")
                self.names["L9"] = "Brand new"
                want["L9"], wact = copy.deepcopy(r), "L9"
                await asyncio.sleep(3)
                await dev.update()
                # the list is updated later, but nothing else is shown as active
                if m.effect in (off, *by.values()) or not m.is_active:
                    raise Violation(f"an unknown effect runs, {m.effect!r} is reported", "active effect")
                try:
                    [f.value for f in dev.features.values()]
                    dev.modules[Module.Light].brightness, dev.modules[Module.Light].state  # noqa: B018
                except Exception as ex:  # noqa: BLE001
                    raise Violation(f"an unknown effect runs: {ex!r}", "effect brightness") from None
                try:
                    await dev.modules[Module.Light].set_brightness(61)
                except KasaException:
                    pass
                except Exception as ex:  # noqa: BLE001
                    raise Violation(f"an unknown effect runs: setting the brightness raises {ex!r}", "effect brightness") from None
                await asyncio.sleep(90_000)
            now = self.rules()
            if now != want:
                raise Violation(f"{where}: the stored effects are {now}, expected {want}", "stored effects")
            if self.active() != wact or self.h.sim.sys["brightness"] != sysb:
                raise Violation(f"{where}: the device runs {self.active()} at {self.h.sim.sys['brightness']}", "effect applied")
            await asyncio.sleep(3)
            await dev.update()
            by = check(where)
            self.ctx.note(*o)
        self.ctx.obs.append(("scenes",))


def scenes(ctx, p):
    core.run_loop(ctx, lambda loop: Scenes(ctx, p).run(loop, p["depth"]))


class Strip:
    """Light strips with a catalogue of effects (SMART and legacy)."""

    def __init__(self, ctx, p):
        self.ctx = ctx
        cls, args, _ = LIGHTS[p["light"]]
        self.h = cls(*args)

    @property
    def st(self):
        s = self.h.sim
        return s.sys["lighting_effect_state"] if self.h.kind == "iot" else s.sys["lighting_effect"]

    def full(self):
        s = self.h.sim
        return s.effect_sent if self.h.kind == "iot" else s.info.get("get_lighting_effect")

    async def run(self, loop, p):
        from kasa.module import Module
        dev = self.h.make()
        self.st.update(enable=0)
        await dev.update()
        m = dev.modules[Module.LightEffect]
        off = m.LIGHT_EFFECTS_OFF
        names = list(m.effect_list)
        if names[0] != off or len(set(names)) != len(names) or len(names) < 10:
            raise Violation(f"effects {names}", "effect list")
        if dev.features["light_effect"].choices != names:
            raise Violation("effect choices differ", "effect list")
        some = [names[1], names[len(names) // 2], names[-1]] if p["depth"] > 1 else names[1:]
        for d in range(p["depth"]):
            ops = [("set", n, b) for n in some for b in (None, 44)] + [
                ("off",), ("bad",), ("custom", ""), ("custom", "Mine"), ("dim", 23), ("colour",), ("softap",), ("app", some[0])]
            ops += [("feature", some[0])]
            o = self.ctx.pick(ops, f"op{d}")
            where = " ".join(map(str, o))
            old, lampb, n = dict(self.st), self.h.lamp()["brightness"], self.h.sim.sends
            shown = dev.modules[Module.Light].brightness
            want = dict(enable=old["enable"], name=old["name"])
            wb = None
            if o[0] in ("set", "feature"):
                if o[0] == "set":
                    await m.set_effect(o[1], **({} if o[2] is None else {"brightness": o[2]}))
                    wb = o[2]
                else:
                    await dev.features["light_effect"].set_value(o[1])
                want = dict(enable=1, name=o[1])
                f = self.full()
                from kasa.iot.effects import EFFECT_MAPPING_V1
                from kasa.smart.effects import EFFECT_MAPPING
                tab = EFFECT_MAPPING_V1 if self.h.kind == "iot" else EFFECT_MAPPING
                # a definition of that name, unlike any other, not a mix of two
                strip = lambda e: {k: v for k, v in e.items() if k not in ("brightness", "enable")}  # noqa: E731
                if f["name"] != o[1] or [k for k, v in tab.items() if strip(v) == strip(f)] != [o[1]] or f["id"] != self.st["id"]:
                    raise Violation(f"{where}: the device got {f}", "effect applied")
                if self.h.kind == "smart" and wb is None and shown:
                    wb = shown
                self.ids = getattr(self, "ids", {})
                if self.ids.setdefault(f["id"], o[1]) != o[1]:
                    raise Violation(f"{where}: same id as {self.ids[f['id']]}", "effect applied")
            elif o[0] == "off":
                await m.set_effect(off)
                want = dict(enable=0)
            elif o[0] == "bad":
                for x in ("", "no such effect", names[1].lower(), "Party"):
                    try:
                        await m.set_effect(x)
                    except ValueError:
                        pass
                    else:
                        raise Violation(f"effect {x!r} was accepted", "unknown effect")
                if self.h.sim.sends != n:
                    raise Violation("an unknown effect was sent", "unknown effect")
            elif o[0] == "custom":
                eff = dict(custom=1, id="mine", brightness=71, name=o[1], enable=1, segments=[0], expansion_strategy=1, type="sequence",
                           duration=0, transition=1500, direction=4, spread=7, repeat_times=0, sequence=[[1, 2, 3]])
                sent = copy.deepcopy(eff)
                await m.set_custom_effect(eff)
                if eff != sent or self.full() != sent:
                    raise Violation(f"{where}: the device got {self.full()}", "effect applied")
                want, wb = dict(enable=1, name=o[1]), 71
            elif o[0] == "dim":
                await dev.modules[Module.Light].set_brightness(o[1])
                if old["enable"] and (old["name"] in names or self.h.kind == "iot"):
                    wb = o[1]
            elif o[0] == "colour":
                await dev.modules[Module.Light].set_hsv(120, 60)
                want = dict(enable=0)
            elif o[0] == "softap":
                self.st.update(enable=1, custom=0, name="softAP", brightness=0, id="")
                want = dict(enable=1, name="softAP")
            elif o[0] == "app":
                self.st.update(enable=1, custom=0, name=o[1], brightness=61, id="x")
                want, wb = dict(enable=1, name=o[1]), 61
            if any(self.st[k] != v for k, v in want.items()) or (wb is not None and self.st["brightness"] != wb):
                raise Violation(f"{where}: the device's effect is {self.st}, expected {want} at {wb}", "effect applied")
            await asyncio.sleep(3)
            await dev.update()
            if list(m.effect_list) != names:
                raise Violation(f"{where}: the list of effects changed", "effect list")
            st = self.st
            if not st["enable"] or (st["name"] == "softAP" and not st["custom"] and self.h.kind == "smart"):
                wshow = off
            elif st["name"] in names:
                wshow = st["name"]
            elif st["custom"]:
                wshow = st["name"] or "Custom"
            else:
                wshow = None
            if wshow is not None and (m.effect != wshow or dev.features["light_effect"].value != wshow):
                raise Violation(f"{where}: {m.effect!r} is reported, the device has {st}", "active effect")
            if st["enable"] and st["name"] in names and dev.modules[Module.Light].brightness != st["brightness"]:
                raise Violation(f"{where}: brightness {dev.modules[Module.Light].brightness} shown, the effect has {st['brightness']}",
                                "effect brightness")
            repr(dev.features["light_effect"])
            self.ctx.note(*o)
        self.ctx.obs.append(("strip",))


def strips(ctx, p):
    core.run_loop(ctx, lambda loop: Strip(ctx, p).run(loop, p))


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for light, (_, _, alpha) in LIGHTS.items():
        for n in range(0 if alpha == "b" else 1, (4 if deep else 3) + 1 + (alpha == "b")):
            for t in itertools.product(alpha, repeat=n):
                t = "".join(t)
                if not deep and n == 3 and len(set(t)) == 1 and alpha != "b" and alpha != "W":
                    continue
                out.append(dict(name="presets", light=light, table=t, budget=0, depth=3 if deep and n <= 2 else 2))
    k = len(NAMES)
    for a, b in itertools.product(range(k), range(k)):
        if a == b and a:
            continue
        for third in (False, True):
            if third and (a > 2 or b > 2):
                continue
            out.append(dict(name="scenes", scenes=[a, b], third=third, budget=0,
                            depth=3 if (deep and (a, b) in ((0, 0), (1, 0), (3, 1))) else 2 if deep or (a, b) in ((0, 0), (1, 4), (3, 2)) else 1))
    for light in ("strip", "strip-temp", "iot-strip"):
        out.append(dict(name="strips", light=light, budget=0, depth=1))
        out.append(dict(name="strips", light=light, budget=0, depth=3 if deep else 2))
    return out


def run(ctx, p):
    dict(presets=presets, scenes=scenes, strips=strips)[p["name"]](ctx, p)
