"""C17: settable features accept exactly their domain and read back what was set."""

from __future__ import annotations

import asyncio
import copy
import datetime as _d
import math
from enum import Enum

from mc import core
from mc.core import Violation

core.install_datetime()

from mc import iotsim, sim  # noqa: E402

BOUNDS = {
    "quick": "every settable feature of every recorded device and child: every choice, both switch positions, numbers at min, min+1, interior, max-1, max, each set after the previous one and read back, from the recorded settings and with every other setting of the device moved away from its recorded value; values just outside, NaN, infinities, wrong types and unknown choices; every read-only feature set; every action triggered; sensor alphabets on every device that has the sensor",
    "thorough": "additionally every ordered pair of settable features of one device, each value of the second after each of the first, and all integers of small ranges",
}
ASSUMPTIONS = "the range of a feature does not change during the life of the device object; features without an advertised domain (hsv) are left to C18; setting presets and effects is judged on the device side by C19; choices may be shown as the enum of that name and durations as timedelta"

VOL = ["mute", "low", "normal", "high"]
ONOFF = {True: "on", False: "off"}


# ---------------------------------------------------------------- devices
def hub_with(child):
    """A hub with exactly one child, from a recorded child."""
    data = sim.load("smart", "H100(EU)_1.0_1.5.10.json")
    c = sim.load("smart/child", child)
    info = c["get_device_info"]
    info["device_id"] = "CHILD1"
    data["get_child_device_list"]["child_device_list"] = [info]
    data["get_child_device_list"]["sum"] = 1
    data["get_child_device_component_list"]["child_component_list"] = [
        {"device_id": "CHILD1", "component_list": c["component_nego"]["component_list"]}]
    return sim.SmartSim(data)


def build(kind, fix):
    if kind == "iot":
        d = _d.datetime.now()
        s = iotsim.IotSim(iotsim.load("iot", fix), today=(d.year, d.month, d.day))
        return s, iotsim.iot_device(s)
    if kind == "smart/child":
        s = hub_with(fix)
    else:
        s = (sim.CamSim if kind == "smartcam" else sim.SmartSim).fixture(fix)
    return s, sim.smart_device(s)


def who_of(kind, dev, d):
    if kind == "iot":
        return None if d is dev else d.child_id
    return "parent" if d is dev else d.device_id


# ---------------------------------------------------------------- device state
def leaves(x, path, out):
    if isinstance(x, dict):
        for k, v in x.items():
            leaves(v, f"{path}.{k}" if path else str(k), out)
    elif isinstance(x, list) and x and isinstance(x[0], (dict, list)):
        for n, v in enumerate(x):
            leaves(v, f"{path}[{n}]", out)
    else:
        out[path] = copy.copy(x)
    return out


CHILD_LISTS = {"get_child_device_list", "getChildDeviceList", "child_devices", "get_child_device_component_list",
               "getChildDeviceComponentList", "component_nego", "getAppComponentList"}


def state_of(kind, s):
    """{who: {leaf: value}}"""
    out = {}
    if kind == "iot":
        s.sysinfo()
        root = {k: v for k, v in s.sys.items() if k != "children"}
        out[None] = leaves(dict(sys=root, las=s.las, pir=s.pir, dim=s.dim, behave=s.behave, clock=s.clock, tz=s.tz_index,
                                cloud=s.cloud, light=getattr(s, "light", None)), "", {})
        for w in s.who_ids:
            out.setdefault(w, {}).update(leaves(dict(rules=s.rules[w], theft=s.theft[w], count=s.count[w],
                                                     enabled=s.enabled[w], days=str(s.meter[w])), "", {}))
            if w is not None:
                out[w].update(leaves(s.socket(w), "sock", {}))
        return out
    for who, x in [("parent", s), *s.children.items()]:
        out[who] = leaves({k: v for k, v in x.info.items() if k not in CHILD_LISTS}, "", {})
    return out


# ---------------------------------------------------------------- expected effects on the device
def smart_effect(fid, v, st):
    info = "get_device_info."
    one = {
        "alarm_duration": ("get_alarm_configure.duration", v),
        "alarm_sound": ("get_alarm_configure.type", v),
        "alarm_volume": ("get_alarm_configure.volume", v),
        "alarm_volume_level": ("get_alarm_configure.volume", VOL[v] if fid == "alarm_volume_level" else None),
        "auto_off_enabled": ("get_auto_off_config.enable", v),
        "auto_off_minutes": ("get_auto_off_config.delay_min", v),
        "auto_update_enabled": ("get_auto_update_info.enable", v),
        "carpet_boost": ("getCarpetClean.carpet_clean_prefer", "boost" if v is True else "normal"),
        "clean_count": ("getCleanAttr.clean_number", v),
        "color_temperature": (info + "color_temp", v),
        "dustbin_autocollection_enabled": ("getDustCollectionInfo.auto_dust_collection", v),
        "fan_sleep_mode": (info + "fan_sleep_mode_on", v),
        "mop_waterlevel": ("getCleanAttr.cistern", dict(Disable=0, Low=1, Medium=2, High=3).get(v)),
        "smooth_transitions": ("get_on_off_gradually_info.enable", v),
        "temperature_offset": (info + "temp_offset", v),
        "temperature_unit": (info + "temp_unit", v),
        "vacuum_fan_speed": ("getCleanAttr.suction", dict(Quiet=1, Standard=2, Turbo=3, Max=4, Ultra=5).get(v)),
        "volume": ("getVolume.volume", v),
    }
    if fid in one:
        return dict([one[fid]])
    if fid == "brightness":
        return {info + "device_on": False} if v == 0 else {info + "brightness": v}
    if fid == "child_lock":
        k = info + "child_protection"
        return {k: v} if k in st else {"getChildLockInfo.child_lock_status": v}
    if fid == "dustbin_mode":
        p = "getDustCollectionInfo."
        if v == "Off":
            return {p + "auto_dust_collection": False}
        return {p + "auto_dust_collection": True,
                p + "dust_collection_mode": dict(Smart=0, Light=1, Balanced=2, Max=3)[v]}
    if fid == "fan_speed_level":
        return {info + "device_on": False} if v == 0 else {info + "device_on": True, info + "fan_speed_level": v}
    if fid == "led":
        return {"get_led_info.led_rule": "always" if v else "never", "get_led_info.led_status": v}
    if fid == "power_protection_threshold":
        p = "get_protection_power."
        return {p + "enabled": False} if v == 0 else {p + "enabled": True, p + "protection_power": v}
    if fid in ("smooth_transition_on", "smooth_transition_off"):
        side = fid.rsplit("_", 1)[1]
        out = {}
        p = f"get_on_off_gradually_info.{side}_state."
        if p + "enable" in st:
            out[p + "enable"] = v > 0
            if v:
                out[p + "duration"] = v
        if info + f"gradually_{side}_mode" in st:
            out[info + f"gradually_{side}_mode"] = int(v > 0)
            if v:
                out[info + f"fade_{side}_time"] = v
        return out
    if fid == "state":
        if info + "frost_protection_on" in st:
            return {info + "frost_protection_on": not v}
        return {info + "device_on": v}
    if fid == "target_temperature":
        return {info + "target_temp": v, info + "frost_protection_on": False}
    return None


def cam_effect(fid, v, st):
    p = {"baby_cry_detection": "getBCDConfig.sound_detection.bcd.enabled",
         "led": "getLedStatus.led.config.enabled",
         "motion_detection": "getDetectionConfig.motion_detection.motion_det.enabled",
         "person_detection": "getPersonDetectionConfig.people_detection.detection.enabled",
         "pet_detection": "getPetDetectionConfig.pet_detection.detection.enabled",
         "tamper_detection": "getTamperDetectionConfig.tamper_detection.tamper_det.enabled"}
    if fid in p:
        return {p[fid]: ONOFF[v]}
    if fid == "state":
        return {"getLensMaskConfig.lens_mask.lens_mask_info.enabled": ONOFF[not v]}
    if fid == "alarm_duration":
        return {"getSirenConfig.duration": v}
    if fid == "alarm_volume":
        return {"getSirenConfig.volume": str(int(v))}
    if fid == "alarm_sound":
        return {"getSirenConfig.siren_type": v}
    if fid in ("pan_step", "tilt_step"):
        return {}
    return None


def iot_effect(fid, v, st, who, s):
    if fid == "state":
        if who is not None:
            return {"sock.state": int(v)}
        if s.is_bulb:
            return {"light.on_off": int(v)}
        if s.is_strip:
            return {}
        return {"sys.relay_state": int(v)}
    if fid == "brightness":
        if s.is_bulb:
            if v and st.get("sys.lighting_effect_state.enable"):
                return {"light.on_off": 1, "sys.lighting_effect_state.brightness": v}
            return {"light.on_off": 0} if v == 0 else {"light.on_off": 1, "light.brightness": v}
        return {"sys.relay_state": 0} if v == 0 else {"sys.relay_state": 1, "sys.brightness": v}
    if fid == "color_temperature":
        return {"light.on_off": 1, "light.color_temp": v}
    if fid == "led":
        return {"sys.led_off": int(not v)}
    if fid == "ambient_light_enabled":
        return {"las.devs[0].enable": int(v)}
    if fid == "pir_enabled":
        return {"pir.enable": int(v)}
    if fid == "pir_range":
        return {"pir.trigger_index": ["Far", "Mid", "Near", "Custom"].index(v)}
    if fid == "pir_threshold":
        return {"pir.trigger_index": 3, "pir.array": [*st["pir.array"][:3], v]}
    d = {"dimmer_threshold_min": "minThreshold", "dimmer_fade_off_time": "fadeOffTime",
         "dimmer_fade_on_time": "fadeOnTime", "dimmer_gentle_off_time": "gentleOffTime",
         "dimmer_gentle_on_time": "gentleOnTime", "dimmer_ramp_rate": "rampRate"}
    if fid in d:
        return {"dim." + d[fid]: v}
    return None


# leaves that merely reflect others or that settle by themselves
def derived(kind, leaf):
    if kind == "iot":
        return leaf.startswith(("sys.light_state.", "sys.on_time", "sock.on_time")) or leaf == "sys.lighting_effect_state.enable"
    return False


# features that show the same setting
LINKED = [{"brightness", "state", "fan_speed_level", "light_preset", "light_effect", "color_temperature", "hsv"},
          {"alarm_volume", "alarm_volume_level"}, {"dustbin_mode", "dustbin_autocollection_enabled"},
          {"target_temperature", "state"}, {"pir_range", "pir_threshold"}]
UNSETTLED = {"light_preset", "light_effect", "hsv"}  # device-side effect judged by C18 and C19


def linked(a, b):
    return a == b or any(a in s and b in s for s in LINKED)


def norm(v):
    if isinstance(v, Enum):
        return v.name
    if isinstance(v, _d.timedelta):
        return v / _d.timedelta(milliseconds=1)
    return v


ACTIONS = {
    "reboot": {"iot": ("system", "reboot"), "smart": ("device_reboot", ...), "smartcam": ("rebootDevice", ...)},
    "test_alarm": {"smart": ("play_alarm", [None, {}]), "smartcam": ("setSirenStatus", {"siren": {"status": "on"}})},
    "stop_alarm": {"smart": ("stop_alarm", None), "smartcam": ("setSirenStatus", {"siren": {"status": "off"}})},
    "check_latest_firmware": {"smart": ("get_latest_fw", None), "smartcam": ("checkFirmwareVersionByCloud", ...)},
    "locate": {"smart": ("playSelectAudio", {"audio_type": "seek_me"})},
    "vacuum_pause": {"smart": ("setRobotPause", {"pause": True})},
    "vacuum_return_home": {"smart": ("setSwitchCharge", {"switch_charge": True})},
    "vacuum_start": {"smart": ("setSwitchClean", {"clean_mode": 0, "clean_on": True, "clean_order": True,
                                                  "force_clean": False})},
    "dustbin_empty": {"smart": ("setSwitchDustCollection", {"switch_dust_collection": True})},
    **{f"{k}_reset": {"smart": ("resetConsumablesTime", {"reset_list": [n]})} for k, n in (
        ("main_brush", "roll_brush"), ("side_brush", "edge_brush"), ("filter", "filter"), ("sensor", "sensor"),
        ("charging_contacts", "charge_contact"))},
    **{k: {"smartcam": ("do", {"motor": {"move": {"x_coord": x, "y_coord": y}}})} for k, x, y in (
        ("pan_right", "-30", "0"), ("pan_left", "30", "0"), ("tilt_up", "0", "10"), ("tilt_down", "0", "-10"))},
}
SKIP_ACTIONS = {"pair", "unpair"}  # C11


# ---------------------------------------------------------------- domains
def good_values(f, tier):
    T = type(f).Type
    if f.type is T.Switch:
        return [not f.value, f.value, not f.value]
    if f.type is T.Choice:
        return list(f.choices)
    lo, hi = f.minimum_value, f.maximum_value
    if hi - lo <= (100 if tier == "thorough" else 6):
        return list(range(lo, hi + 1)) + [lo]
    mid = (lo + hi) // 2
    return [lo, lo + 1, mid, hi - 1, hi, mid + 1, lo]


def bad_values(f):
    T = type(f).Type
    if f.type is T.Choice:
        c = f.choices
        return ["", "no such choice", None, -1, c[0] + "x", c[-1].swapcase(), " " + c[0]]
    if f.type is T.Number:
        lo, hi = f.minimum_value, f.maximum_value
        return [lo - 1, hi + 1, lo - 0.5, hi + 0.5, -(10**9), 10**9, math.nan, math.inf, -math.inf, None, "x", str(hi), [lo]]
    return []


def all_features(kind, dev):
    for d in [dev, *dev.children]:
        for f in d.features.values():
            yield who_of(kind, dev, d), d, f


def show(s):
    return {k: v for k, v in s.items()}


class Run:
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.kind = p["kind"]
        self.sim, self.dev = build(p["kind"], p["fix"])
        if p["name"] == "moved" and self.kind != "iot":
            for s in [self.sim, *self.sim.children.values()]:
                on = s.info.get("get_on_off_gradually_info", {})
                if isinstance(on, dict) and "max_duration" in on.get("on_state", {}):
                    on["on_state"].update(max_duration=20, duration=7)
                if "max_fade_on_time" in s.info.get(I, {}):
                    s.info[I].update(max_fade_on_time=20, fade_on_time=7)
        self.low = "iot" if self.kind == "iot" else "smart"

    def effects_kind(self, d):
        if self.kind == "iot":
            return "iot"
        return "smartcam" if type(d).__name__.startswith("SmartCam") else "smart"

    def expect(self, who, d, fid, v, st):
        k = self.effects_kind(d)
        if k == "iot":
            return iot_effect(fid, v, st, who, self.sim)
        return (cam_effect if k == "smartcam" else smart_effect)(fid, v, st)

    def read_all(self, where):
        out = {}
        for who, d, f in all_features(self.kind, self.dev):
            try:
                v = f.value
                f.unit, f.minimum_value, f.maximum_value
                if f.type.name == "Choice" and (not f.choices or not all(isinstance(c, str) for c in f.choices)):
                    raise Violation(f"{where}: choices of {f.id} are {f.choices!r}", f"choices {f.id}")
                if f.type.name == "Number" and not f.minimum_value < f.maximum_value:
                    raise Violation(f"{where}: range of {f.id} is {f.minimum_value}..{f.maximum_value}", f"range {f.id}")
                r = repr(f)
            except Violation:
                raise
            except Exception as ex:  # noqa: BLE001
                raise Violation(f"{where}: {f.id} of {who} cannot be read: {ex!r}", f"read {f.id}") from None
            if r.startswith("Unable to read") or "improperly defined" in r:
                raise Violation(f"{where}: {f.id} of {who}: {r}", f"read {f.id}")
            if f.attribute_setter is not None and f.type.name in ("Switch", "Number", "Choice"):
                out[who, f.id] = norm(v)
        return out

    async def settle(self):
        await asyncio.sleep(5)
        await self.dev.update()

    def quiet(self, where, n, st):
        """Nothing was sent and nothing changed."""
        if self.sim.sends != n:
            raise Violation(f"{where}: a request was sent: {self.sim.log[-2:]}", "rejected value sent")
        if state_of(self.kind, self.sim) != st:
            raise Violation(f"{where}: the device changed", "rejected value sent")

    async def reject(self, who, f, v):
        where = f"setting {f.id} of {who} to {v!r}"
        n, st = self.sim.sends, state_of(self.kind, self.sim)
        try:
            await f.set_value(v)
        except ValueError:
            pass
        except Exception as ex:  # noqa: BLE001
            raise Violation(f"{where} raised {ex!r}, not a value error", f"wrong error {f.id}") from None
        else:
            raise Violation(f"{where} was accepted (domain {f.choices or (f.minimum_value, f.maximum_value)})", f"accepted {f.id}")
        self.quiet(where, n, st)

    async def accept(self, who, d, f, v, soft=False):
        """Set one value of the domain; judge the device, then the library."""
        where = f"setting {f.id} of {who} to {v!r}"
        before, shown = state_of(self.kind, self.sim), self.read_all("before " + where)
        n = self.sim.sends
        self.sim.unknown_keys.clear()
        try:
            await f.set_value(v)
        except Exception as ex:  # noqa: BLE001
            from kasa import KasaException
            if soft and isinstance(ex, (ValueError, TypeError)):
                return self.quiet(where, n, before)
            if soft and isinstance(ex, KasaException) and state_of(self.kind, self.sim) == before:
                return None
            raise Violation(f"{where} raised {ex!r}", f"refused {f.id}") from None
        if self.sim.unknown_keys:
            raise Violation(f"{where}: the device does not know {self.sim.unknown_keys}", f"unknown keys {f.id}")
        after = state_of(self.kind, self.sim)
        want = None if f.id in UNSETTLED else self.expect(who, d, f.id, v, before[who])
        if want is not None:
            exp = copy.deepcopy(before)
            exp[who].update(want)
            if soft and v != int(v):  # whether fractions are kept is up to the setting
                for k, x in want.items():
                    if x == v and abs(after[who].get(k, -9) - v) < 1:
                        exp[who][k] = after[who][k]
            if f.id == "state" and self.kind == "iot" and self.sim.is_strip and who is None:
                for w in self.sim.socket_ids:
                    exp[w]["sock.state"] = int(v)
            for w in set(exp) | set(after):
                a, b = after.get(w, {}), exp.get(w, {})
                for leaf in sorted(set(a) | set(b)):
                    if a.get(leaf, "missing") != b.get(leaf, "missing") and not derived(self.kind, leaf):
                        raise Violation(f"{where}: {leaf} of {w} is {a.get(leaf, 'missing')!r}, expected {b.get(leaf, 'missing')!r}",
                                        f"effect {f.id}" if w == who and leaf in want else f"side effect {f.id}")
        else:
            for w in before:
                if w != who and before[w] != after[w] and f.id not in UNSETTLED:
                    raise Violation(f"{where} changed {w}", f"side effect {f.id}")
            if f.id not in UNSETTLED:
                raise core.HarnessError(f"no effect known for {self.kind} {f.id}")
        await self.settle()
        now = self.read_all("after " + where)
        for key, val in now.items():
            w, fid = key
            if w == who and fid == f.id:
                if fid in ("light_preset", "light_effect") or (fid == "brightness" and v == 0):
                    continue
                if soft and v != int(v) and abs(val - v) < 1:
                    continue  # whether fractions are kept is up to the setting
                if val != v or isinstance(val, bool) != isinstance(v, bool):
                    raise Violation(f"{where}: after an update it reads {val!r}", f"read back {fid}")
            elif (w == who and linked(fid, f.id)) or (fid == f.id == "state") or (
                    "state" in (fid, f.id) and self.kind == "iot"):
                continue
            elif key in shown and val != shown[key] and type(val) is type(shown[key]):
                raise Violation(f"{where}: {fid} of {w} changed from {shown[key]!r} to {val!r}", f"side effect {f.id}")
        self.ctx.note("set", who, f.id, repr(v))

    async def move(self, feats, devs):
        """Give every other setting of the device another value than the recorded one."""
        for i, fid in feats:
            f = devs[i].features[fid]
            vals = good_values(f, "quick")
            new = [v for v in (vals[-2], vals[0], vals[1]) if norm(f.value) != v][0]
            await f.set_value(new)
            await self.settle()

    async def act(self, who, d, f):
        where = f"action {f.id} of {who}"
        before = state_of(self.kind, self.sim)
        n = len(self.sim.log)
        try:
            await f.set_value(True)
        except Exception as ex:  # noqa: BLE001
            raise Violation(f"{where} raised {ex!r}", f"refused {f.id}") from None
        new = self.sim.log[n:]
        want = ACTIONS[f.id][self.effects_kind(d)]
        if self.kind == "iot":
            ok = [(w, c[1], c[2]) for c in new for w in c[0]] == [(None, "system", "reboot")] or (
                self.sim.is_bulb and [c[2] for c in new] == ["reboot"])
        else:
            ok = len(new) == 1 and new[0][0] == who and new[0][1] == want[0] and (
                want[1] is ... or new[0][2] == want[1] or (isinstance(want[1], list) and new[0][2] in want[1]))
        if not ok:
            raise Violation(f"{where}: the device got {new}", f"effect {f.id}")
        if state_of(self.kind, self.sim) != before and f.id not in ("test_alarm", "stop_alarm", "check_latest_firmware"):
            raise Violation(f"{where} changed settings", f"side effect {f.id}")


def table(kind, fix):
    """(device index, feature id, kind of feature) of one recorded device."""
    from mc.core import Ctx, run_loop
    out = []

    async def main(loop):
        _, dev = build(kind, fix)
        await dev.update()
        for i, d in enumerate([dev, *dev.children]):
            for f in d.features.values():
                if f.attribute_setter is not None:
                    out.append((i, f.id, f.type.name, type(f.container).__name__ if f.container is not None else ""))
        await dev.disconnect()

    run_loop(Ctx(), main)
    return out


def sets(ctx, p):
    async def main(loop):
        r = Run(ctx, p)
        await r.dev.update()
        r.read_all("first update")
        devs = [r.dev, *r.dev.children]
        settable = [(i, f.id) for i, d in enumerate(devs) for f in d.features.values()
                    if f.attribute_setter is not None and f.type.name in ("Switch", "Number", "Choice")]
        want = [tuple(x) for x in p["features"]]
        if p["name"] == "readonly":
            for who, d, f in all_features(r.kind, r.dev):
                if f.attribute_setter is None:
                    for v in (0, True, "x", None, f.value):
                        await r.reject(who, f, v)
                elif f.type.name == "Action" and f.id not in SKIP_ACTIONS:
                    await r.act(who, d, f)
            ctx.obs.append(("readonly",))
            return
        missing = [w for w in want if w not in settable]
        if missing:
            raise Violation(f"settable features missing: {missing}", "missing features")
        i, fid = ctx.pick(want, "feature")
        if p["name"] == "moved":
            await r.move([x for x in settable if x[1] not in UNSETTLED and not linked(x[1], fid)], devs)
        d = devs[i]
        f = d.features[fid]
        who = who_of(r.kind, r.dev, d)
        if p["name"] == "pair":
            # presets and effects change what brightness means: C18 and C19
            others = [x for x in settable if x != (i, fid) and x[0] == i and x[1] not in UNSETTLED]
            if not others:
                return
            g = d.features[ctx.pick(others, "second")[1]]
            vals = good_values(f, "quick")
            for v in vals[:3]:
                await r.accept(who, d, f, v)
                for w in good_values(g, "quick"):
                    await r.accept(who, d, g, w)
            return
        for v in bad_values(f):
            await r.reject(who, f, v)
        for v in good_values(f, p["tier"]):
            await r.accept(who, d, f, v)
        if f.type.name == "Number" and (f.maximum_value - f.minimum_value) >= 2:
            await r.accept(who, d, f, f.minimum_value + 1.0, soft=True)
            await r.accept(who, d, f, f.minimum_value + 1.5, soft=True)
        for v in bad_values(f):
            await r.reject(who, f, v)
        if fid in ("pan_step", "tilt_step"):
            await steps(r, who, d)
        ctx.obs.append((fid,))
    core.run_loop(ctx, main)


async def steps(r, who, d):
    for pan, tilt in ((7, 3), (90, 1)):
        await d.features["pan_step"].set_value(pan)
        await d.features["tilt_step"].set_value(tilt)
        for act, x, y in (("pan_left", pan, 0), ("pan_right", -pan, 0), ("tilt_up", 0, tilt), ("tilt_down", 0, -tilt)):
            n = len(r.sim.log)
            await d.features[act].set_value(None)
            new = r.sim.log[n:]
            if [x_[2] for x_ in new] != [{"motor": {"move": {"x_coord": str(x), "y_coord": str(y)}}}]:
                raise Violation(f"{act} with steps {pan},{tilt} sent {new}", f"effect {act}")


# ---------------------------------------------------------------- sensors
def secs(n):
    return _d.timedelta(seconds=n)


ERR = {0: "Ok", 2: "SideBrushStuck", 3: "MainBrushStuck", 4: "WheelBlocked", 6: "Trapped", 7: "TrappedCliff",
       14: "DustBinRemoved", 15: "UnableToMove", 16: "LidarBlocked", 21: "UnableToFindDock", 22: "BatteryLow"}
STAT = {0: "Idle", 1: "Cleaning", 2: "Mapping", 4: "GoingHome", 5: "Charging", 6: "Charged", 7: "Paused", 8: "Undocked"}
LIFE = {"roll_brush_time": ("main_brush", 400), "edge_brush_time": ("side_brush", 200), "filter_time": ("filter", 200),
        "sensor_time": ("sensor", 30), "charge_contact_time": ("charging_contacts", 30)}
I = "get_device_info"


def thermo(x):
    if x[1]:
        return "Off"
    known = [t for t in x[0] if t != "low_battery"]
    if not known:
        return "Idle"
    return {"heating": "Heating", "progress_calibration": "Calibrating", "idle": "Idle", "off": "Off"}.get(known[0], "Unknown")


# feature, paths on the device, values, expected value
SENSE = [
    ("alarm", [(I, "in_alarm")], [(True,), (False,)], lambda d, x: x[0]),
    ("alarm", [("getSirenStatus", "status")], [("on",), ("off",)], lambda d, x: x[0] == "on"),
    ("alarm_source", [(I, "in_alarm_source")], [("",), ("child:1",)], lambda d, x: x[0] or None),
    ("auto_off_at", [(I, "auto_off_status"), (I, "auto_off_remain_time")],
     [("on", 61), ("off", 0), ("on", 1), ("on", 7200)],
     lambda d, x: d.time + secs(x[1]) if x[0] == "on" else None),
    ("battery_level", [(I, "battery_percentage")], [(0,), (1,), (100,)], lambda d, x: x[0]),
    ("battery_level", [("getBatteryInfo", "battery_percentage")], [(0,), (1,), (100,)], lambda d, x: x[0]),
    ("battery_low", [(I, "at_low_battery")], [(True,), (False,)], lambda d, x: x[0]),
    ("battery_low", [(I, "is_low")], [(True,), (False,)], lambda d, x: x[0]),
    ("battery_low", [("child_info_from_parent", "low_battery")], [(True,), (False,)], lambda d, x: x[0]),
    ("battery_level", [("child_info_from_parent", "battery_percent")], [(0,), (55,)], lambda d, x: x[0]),
    ("battery_charging", [("child_info_from_parent", "battery_charging")], [("NO",), ("YES",), ("NO",)], lambda d, x: x[0] != "NO"),
    ("battery_voltage", [("child_info_from_parent", "battery_voltage")], [(4000,), (3123,)], lambda d, x: x[0] / 1000),
    ("battery_temperature", [("child_info_from_parent", "battery_temperature")], [(0,), (-7,)], lambda d, x: x[0]),
    ("clean_area", [("getCleanInfo", "clean_area")], [(0,), (59,)], lambda d, x: x[0]),
    ("clean_progress", [("getCleanInfo", "clean_percent")], [(0,), (100,)], lambda d, x: x[0]),
    ("clean_time", [("getCleanInfo", "clean_time")], [(0,), (61,)], lambda d, x: secs(60 * x[0])),
    ("total_clean_area", [("getCleanRecords", "total_area")], [(0,), (61,)], lambda d, x: x[0]),
    ("total_clean_time", [("getCleanRecords", "total_time")], [(0,), (61,)], lambda d, x: secs(60 * x[0])),
    ("total_clean_count", [("getCleanRecords", "total_number")], [(0,), (61,)], lambda d, x: x[0]),
    ("last_clean_area", [("getCleanRecords", "lastest_day_record")], [([1736797545, 25, 17, 1],), ([1736797545, 61, 0, 0],)], lambda d, x: x[0][2]),
    ("last_clean_time", [("getCleanRecords", "lastest_day_record")], [([1736797545, 25, 17, 1],), ([1736797545, 61, 0, 0],)], lambda d, x: secs(60 * x[0][1])),
    ("last_clean_timestamp", [("getCleanRecords", "lastest_day_record")], [([1736797545, 25, 17, 1],), ([1750000000, 61, 0, 0],)],
     lambda d, x: _d.datetime.fromtimestamp(x[0][0], d.timezone)),
    *[(f"{n}_used", [("getConsumablesInfo", k)], [(0,), (59,), (60 * life,), (60 * life + 1,), (0,)], lambda d, x: secs(60 * x[0]))
      for k, (n, life) in LIFE.items()],
    *[(f"{n}_remaining", [("getConsumablesInfo", k)], [(0,), (59,), (60 * life,), (60 * life + 1,), (0,)],
       lambda d, x, life=life: secs(3600 * life - 60 * x[0])) for k, (n, life) in LIFE.items()],
    ("cloud_connection", [("get_connect_cloud_state", "status")], [(0,), (1,), (0,), (2,)], lambda d, x: x[0] == 0),
    ("current_firmware_version", [(I, "fw_ver")], [("9.9.9 Build 1",), ("1.0.0",)], lambda d, x: x[0]),
    ("homekit_setup_code", [("get_homekit_info", "mfi_setup_code")], [("123-45-678",)], lambda d, x: x[0]),
    ("matter_setup_code", [("get_matter_setup_info", "setup_code")], [("123",)], lambda d, x: x[0]),
    ("matter_setup_payload", [("get_matter_setup_info", "setup_payload")], [("00:1",)], lambda d, x: x[0]),
    ("humidity", [(I, "current_humidity")], [(0,), (100,)], lambda d, x: x[0]),
    ("humidity_warning", [(I, "current_humidity_exception")], [(0,), (5,), (-5,), (0,)], lambda d, x: x[0] != 0),
    ("temperature", [(I, "current_temp")], [(-10.5,), (0,), (30,)], lambda d, x: x[0]),
    ("temperature_warning", [(I, "current_temp_exception")], [(0,), (2.5,), (-2.5,), (0,)], lambda d, x: x[0] != 0),
    ("motion_detected", [(I, "detected")], [(True,), (False,)], lambda d, x: x[0]),
    ("is_open", [(I, "open")], [(True,), (False,)], lambda d, x: x[0]),
    ("overheated", [(I, "overheat_status")], [("normal",), ("cooldown",), ("overheated",), ("normal",)], lambda d, x: x[0] != "normal"),
    ("overheated", [(I, "overheated")], [(True,), (False,)], lambda d, x: x[0]),
    ("overloaded", [(I, "power_protection_status")], [("normal",), ("overloaded",), ("normal",)], lambda d, x: x[0] == "overloaded"),
    ("report_interval", [(I, "report_interval")], [(1,), (60,)], lambda d, x: x[0]),
    ("rssi", [(I, "rssi")], [(-1,), (-90,)], lambda d, x: x[0]),
    ("signal_level", [(I, "signal_level")], [(0,), (3,)], lambda d, x: x[0]),
    ("ssid", [(I, "ssid")], [("bXkgbmV0",)], lambda d, x: "my net"),
    ("thermostat_mode", [(I, "trv_states"), (I, "frost_protection_on")],
     [(t + lb, f) for t in ([], ["heating"], ["progress_calibration"], ["idle"], ["no such state"]) for lb in ([], ["low_battery"])
      for f in (False, True)], lambda d, x: thermo(x)),
    ("mop_attached", [("getMopState", "mop_state")], [(True,), (False,)], lambda d, x: x[0]),
    ("vacuum_error", [("getVacStatus", "err_status")], [([],), ([999],), ([14, 3],)] + [([c],) for c in ERR] + [([0],)],
     lambda d, x: "Ok" if not x[0] else ERR.get(x[0][0], "UnknownInternal")),
    ("vacuum_status", [("getVacStatus", "status"), ("getVacStatus", "err_status")],
     [(c, e) for c in [*STAT, 99] for e in ([0], [], [14])],
     lambda d, x: "Error" if x[1] == [14] else STAT.get(x[0], "UnknownInternal")),
    ("water_leak", [(I, "water_leak_status")], [("normal",), ("water_leak",), ("water_dry",)],
     lambda d, x: {"normal": "Normal", "water_leak": "LeakDetected", "water_dry": "Drying"}[x[0]]),
    ("water_alert", [(I, "in_alarm")], [(True,), (False,)], lambda d, x: x[0]),
    ("water_alert_timestamp", [(I, "trigger_timestamp")], [(1736797545,)],
     lambda d, x: _d.datetime.fromtimestamp(x[0], d.timezone)),
]
SLOW = {"cloud_connection"}


def iot_sense(s):
    adc = s.adc
    mid = abs(s.pir["max_adc"] - s.pir["min_adc"]) // 2 if s.pir else 0

    def pct(v):
        x = mid - v
        return 100 * x / (mid - s.pir["min_adc"] if x < 0 else s.pir["max_adc"] - mid)

    out = [("rssi", s.sys, "rssi", [-1, -90], lambda v: v)]
    if s.las:
        out.append(("ambient_light", s.brt, "value", [0, 26, 100], lambda v: v))
    if s.pir:
        vals = [0, 1, mid - 1, mid, mid + 1, mid + 600, mid + 1700, s.pir["max_adc"]]
        thr = lambda: s.pir["array"][s.pir["trigger_index"]]  # noqa: E731
        out += [("pir_adc_value", adc, "value", vals, lambda v: v),
                ("pir_value", adc, "value", vals, lambda v: mid - v),
                ("pir_percent", adc, "value", vals, pct),
                ("pir_triggered", adc, "value", vals, lambda v: bool(s.pir["enable"]) and abs(pct(v)) > 100 - thr()),
                ("pir_threshold", s.pir, "trigger_index", [0, 1, 2, 3], lambda v: s.pir["array"][v]),
                ("pir_range", s.pir, "trigger_index", [0, 1, 2, 3], lambda v: ["Far", "Mid", "Near", "Custom"][v])]
    return out


def sense(ctx, p):
    async def main(loop):
        r = Run(ctx, p)
        await r.dev.update()
        devs = [r.dev, *r.dev.children]

        def check(fid, d, who, want, what):
            r.read_all(what)
            try:
                got = norm(d.features[fid].value)
            except Exception as ex:  # noqa: BLE001
                raise Violation(f"{what}: {fid} of {who} cannot be read: {ex!r}", f"read {fid}") from None
            want = norm(want)
            same = abs(got - want) < 1e-9 if isinstance(want, float) and isinstance(got, (int, float)) else got == want
            if not same:
                raise Violation(f"{what}: {fid} of {who} shows {got!r}, expected {want!r}", f"sensor {fid}")
            ctx.note("sensor", fid, repr(want))

        if r.kind == "iot":
            for en in ([0, 1] if r.sim.pir else [0]):
                if r.sim.pir:
                    r.sim.pir["enable"] = en
                for fid, obj, key, vals, exp in iot_sense(r.sim):
                    if fid not in r.dev.features:
                        continue
                    old = obj[key]
                    for v in vals:
                        obj[key] = v
                        await r.settle()
                        check(fid, r.dev, None, exp(v), f"device reports {key}={v!r}")
                    obj[key] = old
            return
        seen = set()
        for d in devs:
            who = who_of(r.kind, r.dev, d)
            s = r.sim if who == "parent" else r.sim.children.get(who)
            if s is None:
                continue
            for n, (fid, paths, vals, exp) in enumerate(SENSE):
                key = (n, d.model, type(d).__name__)
                if fid not in d.features or key in seen:
                    continue
                if not all(a in s.info and isinstance(s.info[a], dict) and (b in s.info[a] or b == "trigger_timestamp") for a, b in paths):
                    continue
                seen.add(key)
                old = [s.info[a].get(b) for a, b in paths]
                ref = "device" if who == "parent" else d.model
                for x in vals:
                    for (a, b), v in zip(paths, x):
                        s.info[a][b] = copy.deepcopy(v)
                    await asyncio.sleep(86_500 if fid in SLOW else 5)
                    await r.dev.update()
                    check(fid, d, who, exp(d, x), f"{ref} reports {[b for _, b in paths]}={x!r}")
                for (a, b), v in zip(paths, old):
                    if v is None:
                        s.info[a].pop(b, None)
                    else:
                        s.info[a][b] = v
        ctx.obs.append(("sense", len(seen)))
    core.run_loop(ctx, main)


def kinds():
    for k in ("iot", "smart", "smartcam", "smart/child"):
        for n in sim.names(k):
            yield k, n


_TABLES = {}


def scenarios(tier):
    out = []
    for kind, fix in kinds():
        if (kind, fix) not in _TABLES:
            _TABLES[kind, fix] = table(kind, fix)
        t = _TABLES[kind, fix]
        done = set()
        feats = []
        for i, fid, typ, mod in t:
            if typ not in ("Switch", "Number", "Choice"):
                continue
            # sockets and equal children: one of each for the quick check
            if tier != "thorough" and i > 2 and (fid, mod) in done:
                continue
            done.add((fid, mod))
            feats.append((i, fid))
        base = dict(kind=kind, fix=fix, budget=0, tier=tier)
        if feats:
            out.append(dict(name="set", features=feats, **base))
            out.append(dict(name="moved", features=[x for x in feats if x[1] not in UNSETTLED], **base))
            if tier == "thorough":
                out.append(dict(name="pair", features=[x for x in feats if x[1] not in UNSETTLED], **base))
        out.append(dict(name="readonly", features=[], **base))
        out.append(dict(name="sense", features=[], **base))
    return out


def run(ctx, p):
    (sense if p["name"] == "sense" else sets)(ctx, p)
