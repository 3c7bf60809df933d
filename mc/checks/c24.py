"""C24: the command line does what it was told and fails loudly."""

from __future__ import annotations

import asyncio
import base64
import contextlib
import copy
import io
import json
import logging
import os
import pickle
import sys
from functools import lru_cache

from mc import core, net, sess
from mc.core import Violation

core.install_datetime()

from datetime import datetime  # noqa: E402  # the host's clock

from mc import iotsim, sim  # noqa: E402

NEEDS_LOGGING = True
prepare = sess.prepare
HOST = "10.2.2.2"
CREDS = ("user@example.com", "S3cret-pass")

BOUNDS = {
    "quick": "every command of every group with argument alphabets (each setting at its limits and just outside, each choice, unknown names, missing arguments) on 16 simulated devices and their first children selected by id, alias and index, as text and as JSON, without faults; each mutating request refused in turn; the device falling silent or resetting from each exchange on (one command of each group, nine devices); every way of naming the device and connection (type, encryption options, environment, hash, discovery by host, alias, broadcast) in a network of several devices",
    "thorough": "the same, with every child, every way of selecting it and every fault from every exchange on for every command",
}
ASSUMPTIONS = ["the equivalent API call is the library's own (checked by the other properties); what the device holds afterwards is compared",
               "a declined confirmation and an interactive prompt's text are not judged; printed text is judged only where a command prints one value",
               "a command that only reads may leave out what the device stopped answering, if the library does so too"]

DEVS = {
    # name: (kind, fixture, stack, extra options)
    "plug": ("iot", "HS110(EU)_1.0_1.2.5.json", "xor", ["--type", "plug"]),
    "strip": ("iot", "HS300(US)_1.0_1.0.10.json", "xor", ["--type", "strip"]),
    "bulb": ("iot", "KL130(EU)_1.0_1.8.8.json", "xor", ["--type", "bulb"]),
    "lightstrip": ("iot", "KL430(US)_1.0_1.0.10.json", "xor", ["--type", "lightstrip"]),
    "dimmer": ("iot", "HS220(US)_1.0_1.5.7.json", "xor", ["--type", "dimmer"]),
    "motion": ("iot", "KS220M(US)_1.0_1.0.4.json", "xor", ["--type", "dimmer"]),
    "s-plug": ("smart", "P110(EU)_1.0_1.2.3.json", "klap2-smart", ["--type", "smart"]),
    "s-strip": ("smart", "P300(EU)_1.0_1.0.15.json", "klap2-smart", ["--type", "smart"]),
    "s-bulb": ("smart", "L530E(EU)_3.0_1.1.6.json", "klap2-smart", ["--type", "smart"]),
    "s-lightstrip": ("smart", "L920-5(EU)_1.0_1.1.3.json", "klap2-smart", ["--type", "smart"]),
    "s-fan": ("smart", "KS240(US)_1.0_1.0.5.json", "klap2-smart", ["--type", "smart"]),
    "s-hub": ("smart", "H100(EU)_1.0_1.5.10.json", "klap2-smart", ["--type", "smart"]),
    "s-dimmer": ("smart", "S505D(US)_1.0_1.1.0.json", "aes2", ["--type", "smart", "--encrypt-type", "AES"]),
    "vacuum": ("smart", "RV20 Max Plus(EU)_1.0_1.0.7.json", "klap2-smart", ["--type", "smart"]),
    "cam": ("smartcam", "C220(EU)_1.0_1.2.2.json", "cam", ["--type", "camera"]),
    "camhub": ("smartcam", "H200(EU)_1.0_1.3.6.json", "cam", ["--type", "camera"]),
}


# ---------------------------------------------------------------- the simulated devices
@lru_cache(None)
def base(kind, fixture):
    """A pickled simulator that has been asked everything once, with distinct names."""
    s = make(kind, fixture)

    async def main():
        d = dev_of(s)
        await d.update()
        await d.update()

    ctx = core.Ctx((), 0)
    core.run_loop(ctx, lambda loop: main())
    for x in walk(s):
        x.log.clear()
        x.unknown_keys.clear()
    return pickle.dumps(s)


def make(kind, fixture):
    if kind == "iot":
        s = iotsim.IotSim.fixture(fixture)
        s.sys["alias"] = "Main Unit"
        for i, c in enumerate(s.sys.get("children", [])):
            c["alias"] = f"Part {i}"
        for book in (s.meter, s.usage):
            for k, v in enumerate(book.values()):
                if isinstance(v, dict) and "months" in v:  # the year before
                    v["days"][2022, 11, 3] = 37 + k
                    v["months"][2022, 12] = 91 + k
        if s.sys.get("preferred_state"):
            s.behave["hard_on"] = {"mode": "customize_preset", "index": 2}
            s.behave["soft_on"] = {"mode": "customize_preset", "index": 1}
            coloured = [x for x in s.sys["preferred_state"] if "hue" in x and not x.get("color_temp")]
            if coloured:
                coloured[-1].update(hue=0, saturation=0)
        return s
    s = (sim.CamSim if kind == "smartcam" else sim.SmartSim).fixture(fixture)
    if kind == "smart":
        s.sys["nickname"] = base64.b64encode(b"Main Unit").decode()
    for i, c in enumerate(s.children.values()):
        if "nickname" in c.info.get("get_device_info", ()):
            c.sys["nickname"] = base64.b64encode(f"Part {i}".encode()).decode()
    return s


def dev_of(s):
    return iotsim.iot_device(s) if isinstance(s, iotsim.IotSim) else sim.smart_device(s)


def walk(s):
    yield s
    for c in getattr(s, "children", {}).values():
        yield from walk(c)


def held(s):
    """All the device stores, as plain data."""
    skip = {"log", "fault", "tag", "on_send", "sends", "unknown_keys", "root", "children", "who"}
    out = {}
    for k, v in s.__dict__.items():
        if k not in skip:
            out[k] = v
    if getattr(s, "children", None):
        out["children"] = {k: held(c) for k, c in s.children.items()}
    if isinstance(s, iotsim.IotSim):
        s.sysinfo()
    return json.loads(json.dumps(out, sort_keys=True, default=repr, skipkeys=True) if not _tuples(out) else json.dumps(_plain(out), sort_keys=True, default=repr))


def _tuples(_o):
    return True


def _plain(o):
    if isinstance(o, dict):
        return {repr(k) if not isinstance(k, str) else k: _plain(v) for k, v in o.items()}
    if isinstance(o, list | tuple):
        return [_plain(v) for v in o]
    if isinstance(o, set | frozenset):
        return sorted(map(repr, o))
    return o


def diff(a, b, path=""):
    if type(a) is not type(b):
        return [f"{path}: {a!r} / {b!r}"]
    if isinstance(a, dict):
        out = []
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                out.append(f"{path}.{k} only in one: {a.get(k, b.get(k))!r}")
            else:
                out += diff(a[k], b[k], f"{path}.{k}")
        return out
    if isinstance(a, list) and len(a) == len(b):
        return [x for i, (p, q) in enumerate(zip(a, b)) for x in diff(p, q, f"{path}[{i}]")]
    return [] if a == b else [f"{path}: {a!r} / {b!r}"]


def reading(name):
    return name.startswith("get") or name in ("component_nego", "heartbeat")


ONESHOT = {"reboot", "reset", "device_reboot", "device_reset", "rebootDevice", "set_stainfo", "set_qs_info", "fw_download", "play_alarm", "stop_alarm",
           "begin_scanning_child_device", "playSelectAudio", "resetConsumablesTime", "startScanChildDevice", "connectAp", "do"}


def mutations(s):
    """Requests that are not readings, in order: (who, name, params)."""
    out = []
    for e in s.log:
        if isinstance(s, iotsim.IotSim):
            who, target, cmd, arg, _ = e
            if not reading(cmd):
                out.append((who, f"{target}.{cmd}", arg))
        elif not reading(e[1]):
            out.append(e)
    return out


def oneshots(s):
    """Actions that leave no trace in what the device stores, and the fade times told to it."""
    out = []
    for m in mutations(s):
        if m[1].split(".")[-1] in ONESHOT or m[1].startswith("netif"):
            out.append(m)
        elif isinstance(m[2], dict):
            out += [("fade", m[0], m[2][k]) for k in ("transition_period", "duration") if m[2].get(k) is not None]
    return out


# ---------------------------------------------------------------- the equivalent API calls
def M(name):
    from kasa import Module
    return getattr(Module, name)


def mod(d, name):
    m = d.modules.get(M(name))
    if m is None:
        raise LookupError(f"no {name}")
    return m


async def _presets_modify(d, idx, **kw):
    m = mod(d, "LightPreset")
    st = m.preset_states_list[idx]
    for k, v in kw.items():
        if getattr(st, k) is not None:
            setattr(st, k, v)
    return await m.save_preset(m.preset_list[idx + 1], st)


async def _behavior(d, typ, preset):
    b = await d.get_turn_on_behavior()
    getattr(b, typ).preset = preset
    return await d.set_turn_on_behavior(b)


async def _unpair(d, cid):
    r = await mod(d, "ChildSetup").unpair(device_id=cid)
    await d.update()
    return r


async def _del_rule(d, rid):
    m = d.modules["schedule"]
    return await m.delete_rule(next(r for r in m.rules if r.id == rid))


def _zone(z):
    import zoneinfo
    return zoneinfo.ZoneInfo(z) if z else None


async def _set_time(d, *a, zone=None):
    return await mod(d, "Time").set_time(datetime(*a, 0, _zone(zone)) if len(a) == 6 else datetime(*a, 0, 0, _zone(zone)))


async def _sync(d, zone=None):
    now = datetime.now()
    if zone:
        now = now.replace(tzinfo=_zone(zone))
    return await mod(d, "Time").set_time(now)


REF = {
    "state": lambda d: d.internal_state,
    "sysinfo": lambda d: d.sys_info,
    "on": lambda d, t=None: d.turn_on(transition=t),
    "off": lambda d, t=None: d.turn_off(transition=t),
    "toggle": lambda d, t=None: d.turn_off(transition=t) if d.is_on else d.turn_on(transition=t),
    "led": lambda d: mod(d, "Led").led,
    "set_led": lambda d, v: mod(d, "Led").set_led(v),
    "alias": lambda d: d.alias,
    "set_alias": lambda d, a: d.set_alias(a),
    "reboot": lambda d, n=1: d.reboot(n),
    "factory": lambda d: d.factory_reset(),
    "creds": lambda d, u, p: d.update_credentials(u, p),
    "feature": lambda d, n: d.features[n].value,
    "set_feature": lambda d, n, v: d.features[n].set_value(v),
    "brightness": lambda d: mod(d, "Light").brightness,
    "set_brightness": lambda d, v, t=None: mod(d, "Light").set_brightness(v, transition=t),
    "temperature": lambda d: list(mod(d, "Light").get_feature("color_temp").range),
    "set_temperature": lambda d, v, t=None: mod(d, "Light").set_color_temp(v, transition=t),
    "hsv": lambda d: list(mod(d, "Light").hsv),
    "set_hsv": lambda d, h, s, v, t=None: mod(d, "Light").set_hsv(h, s, v, transition=t),
    "effect": lambda d: mod(d, "LightEffect").effect,
    "set_effect": lambda d, e: mod(d, "LightEffect").set_effect(e),
    "presets": lambda d: mod(d, "LightPreset").preset_states_list,
    "presets_modify": _presets_modify,
    "behavior": lambda d: d.get_turn_on_behavior(),
    "set_behavior": _behavior,
    "time": lambda d: d.time,
    "set_time": _set_time,
    "sync": _sync,
    "rules": lambda d, t="schedule": d.modules[t].rules,
    "del_rule": _del_rule,
    "usage_year": lambda d, y: d.modules["usage"].get_monthstat(year=y),
    "usage_month": lambda d, y, m: d.modules["usage"].get_daystat(year=y, month=m),
    "usage_erase": lambda d: d.modules["usage"].erase_stats(),
    "energy": lambda d: mod(d, "Energy").status,
    "energy_year": lambda d, y: mod(d, "Energy").get_monthly_stats(year=y),
    "energy_month": lambda d, y, m: mod(d, "Energy").get_daily_stats(year=y, month=m),
    "energy_erase": lambda d: mod(d, "Energy").erase_stats(),
    "scan": lambda d: d.wifi_scan(),
    "join": lambda d, s, p, k: d.wifi_join(s, p, keytype=k),
    "reset_consumable": lambda d, c: mod(d, "Consumables").reset_consumable(c),
    "pair": lambda d, t=10: mod(d, "ChildSetup").pair(timeout=t),
    "unpair": _unpair,
    "query": lambda d, *a: d._query_helper(*a),
    "nothing": lambda d: None,
}


# ---------------------------------------------------------------- the commands
def C(args, ref=None, refargs=(), kw=None, kind="set", **more):
    """kind: get (value compared), set (effect compared), fail (refused, nothing sent), read (succeeds, changes nothing)."""
    return dict(args=list(args), ref=ref, refargs=list(refargs), kw=kw or {}, kind=kind, **more)


def commands(d, name, child, full=True):
    """The commands for a device (or child) the library has read."""
    from kasa import Device, Feature
    from kasa.iot import IotBulb, IotDevice
    has = lambda n: d.modules.get(M(n)) is not None  # noqa: E731
    iot = isinstance(d, IotDevice)
    out = [C(["state"], "state", kind="get"), C(["sysinfo"], "sysinfo", kind="get"), C(["device", "state"], "state", kind="get"),
           C(["on"], "on"), C(["off"], "off"), C(["toggle"], "toggle"), C(["device", "toggle"], "toggle"), C(["device", "on"], "on"),
           C(["alias"], "alias", kind="get", text=True), C(["alias", "New name"], "set_alias", ["New name"]), C(["alias", ""], "set_alias", [""]),
           C(["device", "alias", "Küche ☃"], "set_alias", ["Küche ☃"]), C(["device", "off"], "off"), C(["feature"], kind="read"),
           C(["feature", "nosuch"], kind="fail"), C(["feature", "nosuch", "1"], kind="fail"), C(["nosuch"], kind="fail"),
           C(["device", "nosuch"], kind="fail"), C(["on", "extra"], kind="fail"), C(["device"], kind="help")]
    if iot and (isinstance(d, IotBulb) or d.device_type is Device.Type.Dimmer):
        out += [C(["on", "--transition", "700"], "on", [700]), C(["off", "--transition", "700"], "off", [700]), C(["toggle", "--transition", "300"], "toggle", [300]),
                C(["on", "--transition", "0"], "on", [0]), C(["off", "--transition", "0"], "off", [0])]
    # led
    if has("Led"):
        out += [C(["led"], "led", kind="get", text=True), C(["led", "on"], "set_led", [True]), C(["led", "off"], "set_led", [False]), C(["led", "maybe"], kind="fail")]
    else:
        out += [C(["led"], kind="fail"), C(["led", "on"], kind="fail")]
    # features
    for fid, f in d.features.items():
        out += feature_commands(fid, f, Feature)
    # light
    light = d.modules.get(M("Light"))
    for n in ("brightness", "temperature", "hsv"):
        fid = {"temperature": "color_temp"}.get(n, n)
        if not light or not light.has_feature(fid):
            out += [C(["light", n], kind="fail"), C([n, *(["5", "5", "5"] if n == "hsv" else ["2700"] if n == "temperature" else ["5"])], kind="fail")]
    if light and light.has_feature("brightness"):
        out += [C(["brightness"], "brightness", kind="get", text=True)]
        out += [C(["brightness", str(v)], "set_brightness", [v]) for v in (0, 1, 50, 100)]
        out += [C(["light", "brightness", "33"], "set_brightness", [33]), C(["brightness", "101"], kind="fail"), C(["brightness", "--", "-1"], kind="fail"), C(["brightness", "bright"], kind="fail")]
        if iot:
            out.append(C(["brightness", "44", "--transition", "900"], "set_brightness", [44, 900]))
    if light and light.has_feature("color_temp"):
        lo, hi = light.get_feature("color_temp").range
        out += [C(["temperature"], "temperature", kind="get"), C(["temperature", str(lo)], "set_temperature", [lo]), C(["light", "temperature", str(hi)], "set_temperature", [hi]),
                C(["temperature", str(lo - 1)], kind="fail"), C(["temperature", str(hi + 1)], kind="fail")]
        if iot:
            out.append(C(["temperature", str(lo + 50), "--transition", "900"], "set_temperature", [lo + 50, 900]))
    if light and light.has_feature("hsv"):
        out += [C(["hsv"], "hsv", kind="get"), C(["hsv", "0", "100", "1"], "set_hsv", [0, 100, 1]), C(["light", "hsv", "360", "0", "100"], "set_hsv", [360, 0, 100]),
                C(["hsv", "361", "5", "5"], kind="fail"), C(["hsv", "5", "101", "5"], kind="fail"), C(["hsv", "5"], kind="fail"), C(["hsv", "5", "5"], kind="fail"), C(["hsv", "0", "0"], kind="fail")]
        if iot:
            out.append(C(["hsv", "20", "30", "40", "--transition", "900"], "set_hsv", [20, 30, 40, 900]))
    if has("LightEffect"):
        names = list(d.modules[M("LightEffect")].effect_list)
        out += [C(["effect"], "effect", kind="get", text=True)] + [C(["effect", e], "set_effect", [e]) for e in names[:4]] + [C(["light", "effect", names[-1]], "set_effect", [names[-1]]), C(["effect", "No such effect"], kind="fail")]
    else:
        out += [C(["effect"], kind="fail"), C(["effect", "Aurora"], kind="fail")]
    if has("LightPreset"):
        sts = d.modules[M("LightPreset")].preset_states_list
        n = len(sts)
        out += [C(["presets"], "presets", kind="get"), C(["light", "presets", "list"], "presets", kind="get"), C(["presets", "modify", str(n), "--brightness", "7"], kind="fail"),
                C(["presets", "modify", "0"], kind="fail"), C(["presets", "modify", "--brightness", "7", "--", "-1"], kind="fail"), C(["presets", "modify", "x", "--brightness", "7"], kind="fail"),
                C(["presets", "modify", "--brightness", "7", "--", "-2"], kind="fail")]
        if n:
            out += [C(["presets", "modify", "0", "--brightness", "7"], "presets_modify", [0], dict(brightness=7)), C(["light", "presets", "modify", str(n - 1), "--brightness", "100"], "presets_modify", [n - 1], dict(brightness=100))]
            colour = [i for i, s in enumerate(sts) if s.hue is not None]
            white = [i for i, s in enumerate(sts) if s.color_temp is not None]
            out += [C(["presets", "modify", "0", "--brightness", "0"], "presets_modify", [0], dict(brightness=0))]
            if colour:
                for x, y in (("hue", 10), ("hue", 0), ("saturation", 10), ("saturation", 0)):
                    out += [C(["presets", "modify", str(colour[-1]), f"--{x}", str(y)], "presets_modify", [colour[-1]], {x: y})]
                out += [C(["presets", "modify", str(colour[-1]), "--hue", "0", "--saturation", "55"], "presets_modify", [colour[-1]], dict(hue=0, saturation=55))]
            if white and light.has_feature("color_temp"):
                out += [C(["presets", "modify", str(white[0]), "--temperature", "3100"], "presets_modify", [white[0]], dict(color_temp=3100))]
    else:
        out += [C(["presets"], kind="fail"), C(["presets", "modify", "0", "--brightness", "7"], kind="fail")]
    if isinstance(d, IotBulb) and d.device_type is Device.Type.Bulb:
        out += [C(["light", "turn-on-behavior"], "behavior", kind="get"), C(["light", "turn-on-behavior", "--last"], kind="fail"), C(["light", "turn-on-behavior", "--preset", "1"], kind="fail"),
                C(["light", "turn-on-behavior", "--preset", "0"], kind="fail")]
        for t in ("soft", "hard"):
            out += [C(["light", "turn-on-behavior", "--type", t, "--last"], "set_behavior", [t, None])]
            out += [C(["light", "turn-on-behavior", "--type", t, "--preset", str(i)], "set_behavior", [t, i]) for i in (0, 1, 3)]
    else:
        out += [C(["light", "turn-on-behavior"], kind="fail")]
    # energy and usage
    if has("Energy"):
        e = d.modules[M("Energy")]
        from kasa.interfaces import Energy
        out.append(C(["energy"], "energy", kind="get"))
        if e.supports(Energy.ModuleFeature.PERIODIC_STATS):
            out += [C(["energy", "--year", "2023"], "energy_year", [2023], kind="get"), C(["energy", "--month", "2023-11"], "energy_month", [2023, 11], kind="get"),
                    C(["energy", "--year", "2022"], "energy_year", [2022], kind="get"), C(["energy", "--month", "2022-11"], "energy_month", [2022, 11], kind="get"),
                    C(["energy", "--erase"], "energy_erase"), C(["energy", "--month", "2023-13"], kind="fail"), C(["energy", "--year", "x"], kind="fail")]
        else:
            out += [C(["energy", "--year", "2023"], kind="fail"), C(["energy", "--erase"], kind="fail")]
    else:
        out += [C(["energy"], kind="fail"), C(["energy", "--erase"], kind="fail")]
    if "usage" in d.modules:
        out += [C(["usage"], kind="read"), C(["usage", "--year", "2023"], "usage_year", [2023], kind="get"), C(["usage", "--month", "2023-11"], "usage_month", [2023, 11], kind="get"),
                C(["usage", "--year", "2022"], "usage_year", [2022], kind="get"), C(["usage", "--month", "2022-11"], "usage_month", [2022, 11], kind="get"),
                C(["usage", "--erase"], "usage_erase")]
    elif iot:
        out.append(C(["usage"], kind="fail"))
    # rules
    if "schedule" in d.modules and iot:
        rules = d.modules["schedule"].rules
        out += [C(["schedule", "list"], "rules", kind="get") if rules else C(["schedule", "list"], kind="any"), C(["schedule", "delete", "--id", "nosuch"], kind="fail"), C(["schedule", "list", "nosuch"], kind="fail")]
        for t in ("antitheft", "countdown"):
            if t in d.modules and d.modules[t].rules:
                out.append(C(["schedule", "list", t], "rules", [t], kind="get"))
        out += [C(["schedule", "delete", "--id", r.id], "del_rule", [r.id]) for r in rules]
        out += [C(["schedule", "delete", "--id", x], kind="fail") for x in (rules[0].id[:-1], rules[0].id[:4], "")] if rules else []
    elif not iot:
        out += [C(["schedule", "list"], kind="fail"), C(["schedule", "delete", "--id", "1"], kind="fail")]
    # vacuum
    if has("CleanRecords"):
        out += [C(["vacuum", "records"], kind="read"), C(["vacuum", "records", "list"], kind="read")]
    else:
        out += [C(["vacuum", "records"], kind="fail"), C(["vacuum", "records", "list"], kind="fail")]
    if has("Consumables"):
        out += [C(["vacuum", "consumables"], kind="read"), C(["vacuum", "consumables", "reset", "nosuch"], kind="fail")]
        out += [C(["vacuum", "consumables", "reset", c], "reset_consumable", [c]) for c in d.modules[M("Consumables")].consumables]
    else:
        out += [C(["vacuum", "consumables"], kind="fail"), C(["vacuum", "consumables", "reset", "x"], kind="fail")]
    if has("TriggerLogs"):
        out.append(C(["device", "logs"], kind="read"))
    else:
        out.append(C(["device", "logs"], kind="fail"))
    # raw requests
    if iot:
        out += [C(["command", "--module", "system", "get_sysinfo"], "query", ["system", "get_sysinfo", None], kind="get"),
                C(["command", "--module", "system", "set_dev_alias", "{'alias': 'raw'}"], "query", ["system", "set_dev_alias", {"alias": "raw"}]),
                C(["raw-command", "system", "get_sysinfo"], "query", ["system", "get_sysinfo", None], kind="get"),
                C(["command", "--module", "nosuch", "get_it"], kind="fail"), C(["command", "--module", "system", "get_nosuch"], kind="fail"),
                C(["command", "--module", "system", "set_dev_alias", "{'alias"], kind="fail"), C(["command"], kind="fail")]
    elif "smartcam" not in type(d).__module__:  # the deprecated spelling knows no children
        out += [C(["command", "get_device_info"], "query", ["get_device_info", None], kind="get"),
                C(["command", "set_device_info", "{'nickname': 'cmF3'}"], "query", ["set_device_info", {"nickname": "cmF3"}]),
                C(["raw-command", "smart", "get_device_info"], "query", ["get_device_info", None], kind="get"),
                C(["command", "get_nosuch"], kind="fail"), C(["command", "set_device_info", "{'nick"], kind="fail"), C(["command"], kind="fail")]
    if child:
        return [c for c in out if c["args"][0] != "raw-command"]
    # whole device only
    out += [C(["reboot"], "reboot"), C(["device", "reboot", "--delay", "3"], "reboot", [3]),
            C(["device", "factory-reset"], "factory", input="y\n"), C(["device", "factory-reset"], kind="declined", input="n\n"),
            C(["device", "factory-reset"], kind="declined", input="")]
    from kasa.smart import SmartDevice
    if isinstance(d, SmartDevice):
        out += [C(["update-credentials" if False else "device", "update-credentials", "--username", "n", "--password", "w"], "creds", ["n", "w"], input="y\n"),
                C(["device", "update-credentials", "--username", "n", "--password", "w"], kind="declined", input="n\n")]
    else:
        out += [C(["device", "update-credentials", "--username", "n", "--password", "w"], kind="fail", input="y\n")]
    out += [C(["wifi", "scan"], "scan", kind="get"), C(["wifi", "join", "net1", "--keytype", "3", "--password", "pw"], "join", ["net1", "pw", "3"])]
    if has("Time"):
        zones = ["Europe/Berlin", "Asia/Kolkata"]
        out += [C(["time"], kind="read"), C(["time", "get"], "time", kind="get"), C(["time", "set", "2024", "2", "29", "23", "59", "58"], "set_time", [2024, 2, 29, 23, 59, 58]),
                C(["time", "set", "2024", "2", "30", "23", "59"], kind="fail"), C(["time", "set", "2024", "7", "1", "1"], kind="fail"), C(["time", "set", "2024", "7", "1", "1", "2"], "set_time", [2024, 7, 1, 1, 2]),
                C(["time", "sync"], "sync"), C(["time", "set", "2024", "7", "1", "1", "2", "--timezone", "Mars/Base"], kind="fail"), C(["time", "sync", "--timezone", "Mars/Base"], kind="fail"),
                C(["time", "sync", "--timezone", "Asia/Kolkata", "--skip-confirm"], kind="fail"),
                C(["time", "sync", "--timezone", "UTC", "--skip-confirm"], "sync", kw=dict(zone="UTC"))]
        out += [C(["time", "set", "2024", "7", "1", "1", "2", "3", "--timezone", z, "--skip-confirm"], "set_time", [2024, 7, 1, 1, 2, 3], dict(zone=z)) for z in zones]
        if iot:
            out += [C(["time", "set", "2024", "7", "1", "1", "2", "3", "--timezone", zones[0]], "set_time", [2024, 7, 1, 1, 2, 3], dict(zone=zones[0]), input="y\n"),
                    C(["time", "set", "2024", "7", "1", "1", "2", "3", "--timezone", zones[0]], kind="declined", input="n\n")]
    else:
        out += [C(["time", "set", "2024", "2", "29", "23", "59", "58"], kind="fail"), C(["time", "sync"], kind="fail")]
    if has("ChildSetup") and d.device_type is Device.Type.Hub:
        out += [C(["hub", "list"], kind="read"), C(["hub", "supported"], kind="read"), C(["hub", "unpair", "nosuch"], kind="fail"), C(["hub", "pair", "--timeout", "2"], "pair", [2])]
        out += [C(["hub", "unpair", cid], "unpair", [cid]) for cid in list(d._children)[:2]]
    else:
        out += [C(["hub", a], kind="fail") for a in ("list", "supported", "pair")] + [C(["hub", "unpair", "x"], kind="fail")]
    if not d.children:
        out += [C(["on", "--child", "x"], kind="fail"), C(["on", "--child-index", "0"], kind="fail")]
    else:
        out += [C(["on", "--child", "nosuch"], kind="fail"), C(["on", "--child", ""], kind="fail"), C(["on", "--child", "Part"], kind="fail"), C(["on", "--child-index", str(len(d.children))], kind="fail"), C(["on", "--child-index", "-1"], kind="fail"),
                C(["on", "--child", "Part 0", "--child-index", "0"], kind="fail")]
    return out


def feature_commands(fid, f, Feature):
    T = Feature.Type
    if f.type is T.Action:
        return [C(["feature", fid], "set_feature", [fid, None])]
    out = [C(["feature", fid], "feature", [fid], kind="get", text=True)]
    if f.type in (T.Sensor, T.BinarySensor):
        return [*out, C(["feature", fid, "1"], kind="fail")]
    if f.type is T.Switch:
        out += [C(["feature", fid, str(v)], "set_feature", [fid, v], new=fid) for v in (True, False)]
    elif f.type is T.Number:
        lo, hi = f.minimum_value, f.maximum_value
        out += [C(["feature", fid, str(v)] if v >= 0 else ["feature", fid, "--", str(v)], "set_feature", [fid, v], new=fid) for v in (lo, hi)]
        out += [C(["feature", fid, str(hi + 1)], kind="fail"), C(["feature", fid, "--", str(lo - 1)], kind="fail"), C(["feature", fid, "loud"], kind="fail"), C(["feature", fid, "1,"], kind="any")]
    elif f.type is T.Choice:
        out += [C(["feature", fid, repr(str(v))], "set_feature", [fid, v], new=fid) for v in (f.choices or [])[:4]]
        out += [C(["feature", fid, "'no such choice'"], kind="fail"), C(["feature", fid, "'mismatched"], kind="fail"), C(["feature", fid, "unquoted"], kind="fail")]
    return out


# ---------------------------------------------------------------- one run
class World:
    """A network with one simulated device."""

    def __init__(self, ctx, loop, kind, fixture, stack):
        self.ctx, self.loop = ctx, loop
        self.nw = net.Net(loop, ctx)
        self.sim = pickle.loads(base(kind, fixture))
        self.stack = sess.Stack(self.nw, stack, creds=CREDS, dev_creds=CREDS, host=HOST, app=self.sim.answer)
        self.before = held(self.sim)
        self.exchanges = 0
        self.dead_from, self.dead_how = None, None
        self.nw.force = self.force

    def force(self, stage, names):
        i = self.exchanges
        self.exchanges += 1
        if self.dead_from is not None and i >= self.dead_from:
            return self.dead_how if self.dead_how in names else "hang"
        return None

    def refuse(self, k):
        """Refuse the k-th request that is not a reading."""
        self.count = 0

        def hit(name):
            if reading(name):
                return False
            self.count += 1
            return self.count == k + 1

        if isinstance(self.sim, iotsim.IotSim):
            self.sim.fault = lambda whos, target, cmd, arg: dict(iotsim.BADARG) if hit(cmd) else None
        else:
            self.sim.fault = lambda who, m, prm: sim.PARAMS_ERROR if hit(m) else None

    def effect(self):
        return diff(self.before, held(self.sim)), [list(map(_plain, x)) for x in oneshots(self.sim)]

    def left_open(self):
        out = [f"HTTP session {i}" for i, s in enumerate(self.nw.sessions) if not s.closed]
        out += [f"connection {c.id}" for c in self.nw.open_conns()]
        return out + [f"UDP socket {i}" for i, u in enumerate(self.nw.udps) if not u.closed]


def to_json(v):
    from kasa import Device
    return json.loads(json.dumps(v, default=lambda x: x.internal_state if isinstance(x, Device) else str(x)))


@contextlib.contextmanager
def process(env, stdin):
    """Own standard streams, environment and logging set-up."""
    root = logging.getLogger()
    handlers, level = root.handlers[:], root.level
    root.handlers.clear()
    old = {k: v for k, v in os.environ.items() if k.startswith("KASA_")}
    for k in old:
        if k != "KASA_REPO":
            del os.environ[k]
    os.environ.update(env)
    out, err, inp, argv = io.StringIO(), io.StringIO(), sys.stdin, sys.argv
    sys.stdin = io.StringIO(stdin or "")
    sys.argv = ["kasa"]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            yield out, err
    finally:
        sys.stdin, sys.argv = inp, argv
        root.handlers[:] = handlers
        root.setLevel(level)
        for k in env:
            os.environ.pop(k, None)
        os.environ.update(old)


async def cli_run(args, env=None, stdin=None):
    from kasa.cli.main import cli
    with process(env or {}, stdin) as (out, err):
        try:
            await cli.main(list(args), prog_name="kasa")
            code = 0
        except SystemExit as ex:
            code = ex.code or 0
        except asyncio.CancelledError:
            raise
        except Violation:
            raise
        except Exception as ex:  # noqa: BLE001
            raise Violation(f"`kasa {' '.join(args)}` died with {ex!r}", "crash") from ex
    return code, out.getvalue(), err.getvalue()


def spec(p):
    out = DEVS[p["dev"]] if isinstance(p["dev"], str) else p["dev"]
    base(*out[:2])  # built outside of any loop
    return out


_REFS: dict = {}


def reference(p, refuse=None):
    """What the API call does: (raised, json value, text value, effect, requests that are not readings)."""
    key = json.dumps([p["dev"], p.get("child"), p["cmd"], refuse])
    if key not in _REFS:
        kind, fixture, stack, opts = spec(p)
        ctx = core.Ctx((), 0)

        async def main(loop):
            from kasa import Device
            w = World(ctx, loop, kind, fixture, stack)
            if refuse is not None:
                w.refuse(refuse)
            if kind == "iot":
                d = iotsim.iot_class(w.sim)(HOST, config=w.stack.config)
                await d.update()
            else:
                d = await Device.connect(config=w.stack.config)
            target = d if p.get("child") is None else next(c for c in d.children if c.device_id == p["child"])
            c = p["cmd"]
            val = err = None
            try:
                val = REF[c["ref"]](target, *c["refargs"], **c["kw"])
                if asyncio.iscoroutine(val):
                    val = await val
            except Exception as ex:  # noqa: BLE001
                err = repr(ex)
            js = to_json(val) if err is None else None
            text = str(val)
            if c.get("new") and err is None and refuse is None:
                await d.update()
                text = str(target.features[c["new"]].value)
            await d.disconnect()
            return err, js, text, w.effect(), len(mutations(w.sim))

        _REFS[key] = core.run_loop(ctx, main)
    return _REFS[key]


_LEN: dict = {}


def exchanges(p, args):
    key = json.dumps([p["dev"], args, p["cmd"].get("input")])
    if key not in _LEN:
        kind, fixture, stack, opts = spec(p)
        ctx = core.Ctx((), 0)

        async def main(loop):
            w = World(ctx, loop, kind, fixture, stack)
            await cli_run(args, stdin=p["cmd"].get("input"))
            return w.exchanges

        _LEN[key] = core.run_loop(ctx, main)
    return _LEN[key]


def with_child(args, sel, where):
    if not sel:
        return list(args)
    if where == "group":
        return [args[0], *sel, *args[1:]]
    if "--" in args:
        i = args.index("--")
        return [*args[:i], *sel, *args[i:]]
    return [*args, *sel]


def options(p):
    kind, fixture, stack, opts = spec(p)
    out = ["--host", HOST, *opts]
    if kind != "iot":
        out += ["--username", CREDS[0], "--password", CREDS[1]]
    return out


def run(ctx, p):
    if p["op"] == "select":
        return run_select(ctx, p)
    c = p["cmd"]
    kind, fixture, stack, opts = spec(p)
    js = ctx.pick([False, True], "json") if not c.get("input") and c["kind"] != "declined" else False
    sel = ctx.pick(p["sels"], "child") if p.get("sels") else None
    args = options(p) + (["--json"] if js else []) + with_child(c["args"], sel and sel[1], sel and sel[0])
    fault = p.get("fault")
    refused = at = None
    if fault == "refuse":
        n = reference(p)[4]
        if not n:
            return "nothing to refuse"
        refused = ctx.pick(range(n), "refused")
    elif fault:
        at = ctx.pick(range(exchanges(p, args)), "fails from")

    async def main(loop):
        w = World(ctx, loop, kind, fixture, stack)
        if refused is not None:
            w.refuse(refused)
        w.dead_from, w.dead_how = at, fault
        code, out, err = await cli_run(args, stdin=c.get("input"))
        ctx.note("exit", code, out[-300:], err[-300:])
        await asyncio.sleep(0)
        return code, out, err, w.effect(), len(mutations(w.sim)), w.left_open()

    code, out, err, effect, muts, left = core.run_loop(ctx, main)
    what = f"`kasa {' '.join(args[2:])}` on {p['dev']}" + (f" with {fault} at {refused if at is None else at}" if fault else "")
    judge(p, what, js, code, out, err, effect, muts, left, refused, fault)
    return f"exit {code}"


def judge(p, what, js, code, out, err, effect, muts, left, refused, fault):
    c = p["cmd"]
    key = " ".join(a for a in c["args"][:3] if not a[:1].isdigit())
    if code not in (0, 1, 2):
        raise Violation(f"{what} exited with {code}", f"{key}: exit status")
    if js and c["kind"] != "help":
        if code == 0 or out.strip():
            try:
                doc = json.loads(out)
            except ValueError:
                raise Violation(f"{what} (exit {code}) printed no valid JSON document: {out[:300]!r}", f"{key}: invalid JSON") from None
    if code and not js and not (out.strip() or err.strip()):
        raise Violation(f"{what} failed without a word", f"{key}: silent failure")
    if code == 0 and left:
        raise Violation(f"{what} succeeded but left open: {left}", "left open")
    k = c["kind"]
    if k in ("fail", "declined", "get", "read") and muts:
        raise Violation(f"{what} (exit {code}) sent {muts} changing request(s)", f"{key}: unexpected effect")
    if k in ("any", "declined", "help"):
        return
    if k == "fail":
        if code == 0:
            raise Violation(f"{what} must fail, but exited with 0: {out[:300]!r}", f"{key}: accepted")
        return
    raised, value, text, want, n = reference(p) if c["ref"] else (None, None, None, ([], []), 0)
    if refused is not None:
        raised, value, text, want, n = reference(p, refused)
        if raised and code == 0:
            raise Violation(f"{what}: the device refused the request, the API raises {raised}, but the command exited with 0: {out[:300]!r}", f"{key}: hidden failure")
        if not raised and code:
            return  # the command looks at more than the call
    elif raised:
        if code == 0:
            raise Violation(f"{what} exited with 0 but the API call raises {raised}", f"{key}: hidden failure")
        return
    if code:
        if fault is None:
            raise Violation(f"{what} failed ({code}) although the API call works: {out[-400:]!r} {err[-400:]!r}", f"{key}: fails")
        return
    if raised:
        return
    if fault and fault != "refuse":
        effect = effect[0], [x for i, x in enumerate(effect[1]) if x not in effect[1][:i]]
    if effect != want:
        raise Violation(f"{what} left the device with {effect}, the API call with {want}", f"{key}: wrong effect")
    if k == "set" and c.get("new") and not js and fault is None and squeeze(f"New state: {text}") not in squeeze(out):
        raise Violation(f"{what} printed {out[:400]!r}, the value is now {text!r}", f"{key}: wrong new state")
    if k == "get":
        if js and doc != value:
            raise Violation(f"{what} printed {diff(doc, value)[:5]}", f"{key}: wrong value")
        if not js and c.get("text") and squeeze(text) not in squeeze(out):
            raise Violation(f"{what} printed {out[:400]!r}, the value is {text!r}", f"{key}: wrong text")


def squeeze(s):
    return "".join(s.split())


# ---------------------------------------------------------------- scenarios
def listing(dev):
    """[(child id or None, selectors, commands)] for one device."""
    kind, fixture, stack, opts = spec(dict(dev=dev))

    async def main():
        s = pickle.loads(base(kind, fixture))
        d = dev_of(s)
        await d.update()
        out = [(None, None, commands(d, dev, False))]
        for i, ch in enumerate(d.children):
            by_id, by_alias, by_idx = ["--child", ch.device_id], ["--name", ch.alias], ["--child-index", str(i)]
            names = [x.alias for x in d.children]
            sels = [("end", by_id), ("end", by_idx)]
            if ch.alias and names.count(ch.alias) == 1:
                sels.append(("end", by_alias))
            out.append((ch.device_id, sels, commands(ch, dev, True)))
        return out

    return core.run_loop(core.Ctx((), 0), lambda loop: main())


DEAD = ("reset", "hang")


FALLIBLE = {"plug", "strip", "bulb", "dimmer", "s-plug", "s-bulb", "s-hub", "cam", "vacuum"}


def scenarios(tier):
    deep = tier == "thorough"
    sess.prepare()
    out = selections(deep)
    for dev in DEVS:
        for nth, (child, sels, cmds) in enumerate(listing(dev)):
            kinds = set()
            if nth > 2 and not deep:
                break
            for n, c in enumerate(cmds):
                p = dict(op="cmd", dev=dev, child=child, cmd=c)
                if sels:
                    grp = [("group", s) for w, s in sels] if c["args"][0] in ("device", "light") and len(c["args"]) > 1 else []
                    sl = sels + grp
                    p["sels"] = sl if c["args"][:2] in (["alias", "New name"], ["on"], ["device", "on"], ["light", "brightness"]) or deep else [sl[n % len(sl)]]
                out.append(p)
                if child and c["args"] == ["off"]:  # chosen from the list that is shown
                    out.append(dict(p, cmd=dict(c, input=f"{nth - 1}\n"), sels=[("end", ["--child"])]))
                if c["kind"] == "set":
                    out.append(dict(p, fault="refuse"))
                first = (c["args"][0], c["args"][1] if len(c["args"]) > 1 and c["args"][0] in ("device", "light", "time", "wifi", "schedule", "hub", "vacuum", "presets") else "", c["kind"])
                if deep or first not in kinds and not child and dev in FALLIBLE:
                    kinds.add(first)
                    # joining: the device leaves the network; presets: the library reports none when it could not read them
                    if c["kind"] in ("set", "get", "read") and c["ref"] not in ("join", "presets"):
                        out += [dict(p, fault=f, sels=p["sels"][:1] if sels else None) for f in DEAD]
    return out


# ---------------------------------------------------------------- which device, which connection
PEERS = {
    # name: (host, server kind, device data, alias, what it says when asked who it is)
    "plug": ("10.3.0.1", "xor", ("iot", "HS100(UK)_4.1_1.1.0.json"), "Lamp", "legacy"),
    "klap": ("10.3.0.2", "klap2-smart", ("smart", "P110(EU)_1.0_1.2.3.json"), "Büro 2", ("SMART.TAPOPLUG", "KLAP", 2, False, 80)),
    "cam": ("10.3.0.3", "cam", ("smartcam", "C220(EU)_1.0_1.2.2.json"), "Door", ("SMART.IPCAMERA", "AES", None, True, None)),
    "aes": ("10.3.0.4", "aes2", ("smart", "P100(US)_1.0.0_1.4.0.json"), "Old Plug", ("SMART.TAPOPLUG", "AES", 2, False, 80)),
    "iotklap": ("10.3.0.5", "klap1-iot", ("iot", "HS100(UK)_4.1_1.1.0.json"), "Klap Lamp", ("IOT.SMARTPLUGSWITCH", "KLAP", None, False, 80)),
    "strip": ("10.3.0.6", "xor", ("iot", "HS300(US)_1.0_1.0.10.json"), "Strip", "legacy"),
    "alien": ("10.3.0.7", None, None, None, ("SMART.TAPOXMASTREE", "AES", 2, False, 80)),
    "locked": ("10.3.0.8", "klap2-smart", ("smart", "P110(EU)_1.0_1.2.3.json"), "Locked", ("SMART.TAPOPLUG", "KLAP", 2, False, 80)),
    "ghost": ("10.3.0.9", None, ("iot", "HS100(UK)_4.1_1.1.0.json"), "Ghost", "legacy"),
    "vacuum": ("10.3.0.10", "token", ("smart", "RV20 Max Plus(EU)_1.0_1.0.7.json"), "Robot", ("SMART.TAPOROBOVAC", "AES", None, True, 4433)),
    "moved": ("10.3.0.11", "xor", ("iot", "HS100(UK)_4.1_1.1.0.json"), "Moved", None),
    "far": ("10.3.1.1", "xor", ("iot", "HS100(UK)_4.1_1.1.0.json"), "Far", "legacy"),
    "twin": ("10.3.0.12", "xor", ("iot", "HS100(UK)_4.1_1.1.0.json"), "lamp 2", "legacy"),
    "bulb": ("10.3.0.13", "xor", ("iot", "KL130(EU)_1.0_1.8.8.json"), "Bulb", "legacy"),
    "dimmer": ("10.3.0.14", "xor", ("iot", "HS220(US)_1.0_1.5.7.json"), "Dimmer", "legacy"),
    "lightstrip": ("10.3.0.15", "xor", ("iot", "KL430(US)_1.0_1.0.10.json"), "Lightstrip", "legacy"),
    "switch": ("10.3.0.16", "xor", ("iot", "HS200(US)_2.0_1.5.7.json"), "Switch", "legacy"),
    "late": ("10.3.0.18", "xor", ("iot", "HS100(UK)_4.1_1.1.0.json"), "Late", "legacy"),
    "nameless": ("10.3.0.17", "xor", ("iot", "HS100(UK)_4.1_1.1.0.json"), "", "legacy"),
}
MOVED_PORT = 12345


@lru_cache(None)
def peer_base(name):
    host, kind, data, alias, says = PEERS[name]
    s = pickle.loads(base(*data))
    if isinstance(s, iotsim.IotSim):
        s.sys["alias"] = alias
    elif isinstance(s, sim.CamSim):
        s.info["getDeviceInfo"]["device_info"]["basic_info"]["device_alias"] = alias
    else:
        s.sys["nickname"] = base64.b64encode(alias.encode()).decode()
    return pickle.dumps(s)


class Lan:
    def __init__(self, ctx, loop, names, creds=CREDS):
        from mc.checks import c13, c14
        self.c13 = c13
        self.loop = loop
        self.nw = net.Net(loop, ctx)
        self.names = names
        self.sims, self.stacks, self.before = {}, {}, {}
        for n in names:
            host, kind, data, alias, says = PEERS[n]
            if data:
                self.sims[n] = pickle.loads(peer_base(n))
                self.before[n] = held(self.sims[n])
            if kind:
                st = sess.Stack(self.nw, kind, creds=CREDS, dev_creds=sess.OTHER if n == "locked" else CREDS, host=host, app=self.sims[n].answer)
                self.stacks[n] = st
                if (key := (host, next((q for h, q in self.nw.http if h == host), None))) in self.nw.http:
                    self.nw.http[key] = c14.Front(st.server, c14.UNDERSTANDS[sess.KINDS[kind][0]])
                if n == "moved":
                    self.nw.tcp[(host, MOVED_PORT)] = self.nw.tcp.pop((host, 9999))
        self.nw.on_udp_send = self.asked

    def asked(self, endpoint, data, addr):
        for n in self.names:
            host, kind, dev, alias, says = PEERS[n]
            bcast = {"255.255.255.255"} if n != "far" else {"10.3.1.255"}
            if says is None or addr[0] not in bcast | {host}:
                continue
            if says == "legacy" and addr[1] == 9999:
                d = self.c13.xor(json.dumps({"system": {"get_sysinfo": self.sims[n].sysinfo()}}).encode())
            elif says != "legacy" and addr[1] == 20002:
                d = self.c13.HDR + json.dumps(self.c13.new(host, says[0], says[1], https=says[3], port=says[4], lv=says[2])).encode()
            else:
                continue
            self.loop.call_later(7.0 if n == "late" else 0.2, endpoint.deliver, d, (host, addr[1]))

    def changed(self):
        return sorted(n for n in self.sims if diff(self.before[n], held(self.sims[n])) or mutations(self.sims[n]))

    left_open = World.left_open


_STATES: dict = {}


def peer_state(n, updates=1):
    """What the library holds after one or two updates."""
    if (n, updates) not in _STATES:
        ctx = core.Ctx((), 0)

        async def main(loop):
            from kasa import Device
            w = Lan(ctx, loop, [n])
            if PEERS[n][2][0] == "iot":
                d = iotsim.iot_class(w.sims[n])(PEERS[n][0], config=w.stacks[n].config, protocol=w.stacks[n].proto)
                await d.update()
            else:
                d = await Device.connect(config=w.stacks[n].config)
            if updates > 1:
                await d.update()
            out = to_json(d.internal_state)
            await d.disconnect()
            return out

        _STATES[n, updates] = core.run_loop(ctx, main)
    return _STATES[n, updates]


USER = ["--username", CREDS[0], "--password", CREDS[1]]
NAME = ["alias", "Renamed"]


def S(names, args, want, *, env=None, docs=None, state=None, **more):
    """want: name of the peer changed, None (succeeds, nothing changed) or "fail"."""
    return dict(op="select", peers=list(names), args=list(args), want=want, env=env or {}, docs=docs, state=state, **more)


def selections(deep):
    host = {n: p[0] for n, p in PEERS.items()}
    out = []
    for n, t in (("plug", "plug"), ("bulb", "bulb"), ("dimmer", "dimmer"), ("lightstrip", "lightstrip"), ("strip", "strip"), ("switch", "switch")):
        others = [x for x in ("plug", "bulb") if x != n]
        out += [S([n, *others], ["--host", host[n], "--type", t, *NAME], n), S([n, *others], ["--type", t.upper(), "--host", host[n], *NAME], n),
                S([n, *others], NAME, n, env=dict(KASA_HOST=host[n], KASA_TYPE=t)), S([n, *others], ["--host", host[n], "--type", t, "state"], None, state=n),
                S([n, *others], ["--host", host[n], "--type", t], None, state=n)]
    direct = {
        "klap": [["--type", "smart"], ["--encrypt-type", "KLAP", "--device-family", "SMART.TAPOPLUG"], ["-e", "klap"], ["-e", "KLAP", "-df", "SMART.TAPOPLUG", "-lv", "2"]],
        "aes": [["--type", "smart", "--encrypt-type", "AES"], ["-e", "AES", "-df", "SMART.TAPOPLUG"], ["-e", "aes", "--no-https"]],
        "iotklap": [["-e", "KLAP", "-df", "IOT.SMARTPLUGSWITCH"], ["-e", "KLAP", "-df", "IOT.SMARTPLUGSWITCH", "-lv", "1"]],
        "cam": [["--type", "camera"], ["--encrypt-type", "AES", "--https", "-df", "SMART.IPCAMERA"]],
        "vacuum": [["--encrypt-type", "AES", "--https", "-df", "SMART.TAPOROBOVAC"]],
    }
    wrong = {
        "klap": [["-e", "AES"], ["--type", "camera"], ["-e", "KLAP", "-df", "IOT.SMARTPLUGSWITCH"], ["-e", "KLAP", "-df", "SMART.NOSUCH"], ["-e", "ROT13"]],
        "aes": [["--type", "smart"], ["-e", "XOR", "-df", "IOT.SMARTPLUGSWITCH"]], "cam": [["--type", "smart"], ["-e", "AES", "-df", "SMART.IPCAMERA"]],
    }
    for n, ways in direct.items():
        both = [n, "plug"]
        for w in ways:
            pre = ["--host", host[n], *w]
            out += [S(both, [*pre, *USER, *NAME], n), S(both, [*pre, "--username", CREDS[0], "--password", "wrong", *NAME], "fail"),
                    S(both, [*pre, *USER, "--port", "4444", *NAME], "fail"), S(both, [*pre, *USER], None, state=n),
                    S(both, [*pre, *NAME], n, env=dict(KASA_USERNAME=CREDS[0], KASA_PASSWORD=CREDS[1])),
                    S(both, [*pre, *NAME], n, hashed=n), S(both, [*pre, *NAME], n, hashed=n, by_env=True)]
        first = ways[-1]
        names = {"--type": "KASA_TYPE", "--encrypt-type": "KASA_ENCRYPT_TYPE", "-e": "KASA_ENCRYPT_TYPE", "-df": "KASA_DEVICE_FAMILY", "--device-family": "KASA_DEVICE_FAMILY", "-lv": "KASA_LOGIN_VERSION"}
        env, it = {}, iter(first)
        for o in it:
            if o in ("--https", "--no-https"):
                env["KASA_HTTPS"] = "1" if o == "--https" else "0"
            else:
                env[names[o]] = next(it)
        out.append(S(both, NAME, n, env=dict(env, KASA_HOST=host[n], KASA_USERNAME=CREDS[0], KASA_PASSWORD=CREDS[1])))
        for w in wrong.get(n, []):
            out.append(S(both, ["--host", host[n], *w, *USER, *NAME], "fail"))
    # another port
    out += [S(["moved", "plug"], ["--host", host["moved"], "--type", "plug", "--port", str(MOVED_PORT), *NAME], "moved"),
            S(["moved", "plug"], ["--host", host["moved"], "--type", "plug", *NAME], "fail"),
            S(["moved", "plug"], ["--host", host["moved"], "--type", "plug", *NAME], "moved", env=dict(KASA_PORT=str(MOVED_PORT))),
            S(["plug"], ["--host", host["plug"], "--type", "plug", "--port", "x", *NAME], "fail")]
    # by discovery of the host
    lan = ["plug", "klap", "alien", "twin"]
    for n in ("plug", "klap", "cam", "aes", "iotklap", "strip", "vacuum"):
        here = sorted({n, *lan})
        out += [S(here, ["--host", host[n], *USER, *NAME], n), S(here, ["--host", host[n], *USER], None, state=n), S(here, ["--host", host[n], *USER, "state"], None, state=n),
                S(here, ["--host", host[n], *USER, "discover"], None, state=n), S(here, ["--host", host[n], *USER, "discover", "list"], None, state=n)]
    for n in ("alien", "locked", "ghost"):
        out += [S([*lan, n], ["--host", host[n], *USER, *a], "fail") for a in (NAME, [], ["state"])]
    out += [S(lan, ["--host", "10.3.0.99", *USER, *a], "fail") for a in (NAME, [], ["state"])]
    out += [S([*lan, "locked"], ["--host", host["locked"], "--username", sess.OTHER[0], "--password", sess.OTHER[1], *NAME], "locked")]
    # by name
    named = ["plug", "klap", "twin", "locked", "ghost", "alien", "nameless", "strip"]
    for n, spellings in (("plug", ["Lamp", "lamp", "LAMP"]), ("klap", ["Büro 2", "BÜRO 2"]), ("twin", ["lamp 2", "Lamp 2"]), ("strip", ["strip"])):
        for a in spellings:
            out += [S(named, ["--alias", a, *USER, *NAME], n), S(named[::-1], ["--alias", a, *USER, *NAME], n), S(named, ["--alias", a, *USER, "--discovery-timeout", "2", *NAME], n)]
        out += [S(named, ["--alias", spellings[0], *USER], None, state=n), S(named, [*USER, *NAME], n, env=dict(KASA_NAME=spellings[0]))]
    out += [S(named, ["--alias", a, *USER, *c], "fail") for a in ("Lam", "lamp 3", "Locked", "Ghost", "Renamed") for c in (NAME, [], ["state"])]
    out += [S(["far", "plug"], ["--alias", "Far", "--target", "10.3.1.255", *NAME], "far"), S(["far", "plug"], ["--alias", "Far", *NAME], "fail"),
            S(["far", "plug"], ["--alias", "Lamp", "--target", "10.3.1.255", *NAME], "fail"), S(["plug"], ["--alias", "Lamp", *NAME], "fail", no_udp=True)]
    # discovery
    everyone = ["plug", "klap", "cam", "aes", "strip", "alien"]
    ok = ["plug", "klap", "cam", "aes", "strip"]
    for here, docs in ((everyone, ok), (["plug", "klap", "locked"], ["plug", "klap", "locked"]), (["plug", "ghost", "klap"], ["plug", "ghost", "klap"]), (["alien"], []), ([], [])):
        for a in (["discover"], ["discover", "detail"], ["discover", "list"], []):
            out += [S(here, [*USER, *a], None, docs=docs), S(here, ["--discovery-timeout", "3", *USER, *a], None, docs=docs)]
        for a in (["discover", "raw"], ["discover", "raw", "--redact"]):
            out.append(S(here, [*USER, *a], None, docs=docs, bare=True))
    out += [S(["far", "plug"], ["--target", "10.3.1.255", "discover"], None, docs=["far"]), S(["far", "plug"], ["discover", "list"], None, docs=["far"], env=dict(KASA_TARGET="10.3.1.255"))]
    for n in ("plug", "klap", "aes", "iotklap", "cam", "vacuum"):
        out.append(S([n], ["--host", host[n], *USER, "discover", "config"], None, state=n, bare=n == "plug" or None))
    out += [S(["klap"], ["--host", host["locked"], *USER, "discover", "config"], "fail"), S(["plug"], ["discover", "config"], "fail")]
    # how long to wait for answers
    for n, t in (("late", []), ("late", ["--discovery-timeout", "8"])):
        out += [S(["late", "plug"], ["--alias", "Late", *t, *NAME], n), S(["late", "plug"], ["--host", host["late"], *t, *NAME], n)]
    out += [S(["late", "plug"], ["--alias", "Late", "--discovery-timeout", "3", *NAME], "fail"), S(["late", "plug"], ["--host", host["late"], "--discovery-timeout", "3", *NAME], "fail"),
            S(["late", "plug"], ["--discovery-timeout", "3", "discover"], None, docs=["plug"]), S(["late", "plug"], ["discover", "list"], None, docs=["late", "plug"])]
    # contradictions
    h = ["--host", host["plug"]]
    out += [S(["plug"], a, "fail") for a in (
        [*h, "--alias", "Lamp", *NAME], [*h, "--username", "x", *NAME], [*h, "--password", "x", *NAME], [*h, "--target", "10.3.1.255", *NAME], NAME, ["state"], ["on"],
        [*h, "--type", "toaster", *NAME], [*h, "--encrypt-type", "AES", "--device-family", "TOASTER", *NAME], [*h, "--timeout", "soon", *NAME], ["--alias", "Lamp", "--type", "plug", *NAME], [*h, "--nosuch", *NAME])]
    return out


def run_select(ctx, p):
    want = p["want"]
    js = ctx.pick([False, True], "json")
    for n in p["peers"]:
        if PEERS[n][2]:
            peer_base(n)
    second = peer_state(p["state"], 2) if p["state"] else None
    states = {n: peer_state(n) for n in ([p["state"]] if p["state"] else []) + [d for d in p["docs"] or [] if d not in ("locked", "ghost")]}
    env = dict(p["env"])
    args = list(p["args"])

    async def main(loop):
        w = Lan(ctx, loop, p["peers"])
        if p.get("hashed"):
            hsh = w.stacks[p["hashed"]].transport.credentials_hash
            if p.get("by_env"):
                env["KASA_CREDENTIALS_HASH"] = hsh
            else:
                args[:0] = ["--credentials-hash", hsh]
        if p.get("no_udp"):
            w.nw.udp_fail = True
        if js and p.get("by_env"):
            env["KASA_JSON"] = "1"
        elif js:
            args[:0] = ["--json"]
        task = loop.create_task(cli_run(args, env))
        done, _ = await asyncio.wait({task}, timeout=600)
        if not done:
            task.cancel()
            raise Violation(f"`kasa {' '.join(args)}` {env or ''} does not end", "hangs")
        code, out, err = task.result()
        ctx.note("exit", code, out[-300:], err[-300:])
        # as asyncio.run() does at the end
        rest = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
        for t in rest:
            t.cancel()
        await asyncio.gather(*rest, return_exceptions=True)
        await asyncio.sleep(0)
        return code, out, err, w.changed(), w.left_open()

    code, out, err, changed, left = core.run_loop(ctx, main)
    what = f"`kasa {' '.join(args)}` {env or ''} among {p['peers']}"
    detail = f"{out[-300:]!r} {err[-200:]!r}"
    if js and (code == 0 or out.strip()):
        try:
            doc = json.loads(out)
        except ValueError:
            raise Violation(f"{what} (exit {code}) printed no valid JSON document: {out[:300]!r}", "select: invalid JSON") from None
    if code not in (0, 1, 2):
        raise Violation(f"{what} exited with {code}", "select: exit status")
    expected = [want] if want not in (None, "fail") else []
    if want == "fail":
        if code == 0:
            raise Violation(f"{what} must fail, but exited with 0: {detail}", "select: accepted")
        if not js and not (out.strip() or err.strip()):
            raise Violation(f"{what} failed without a word", "select: silent failure")
    elif code:
        raise Violation(f"{what} failed ({code}): {detail}", "select: fails")
    if changed != expected:
        raise Violation(f"{what} (exit {code}) changed {changed}, expected {expected}: {detail}", "select: wrong device")
    if code == 0 and left:
        raise Violation(f"{what} succeeded but left open: {left}", "select: left open")
    if code or not js or p.get("bare") and p["state"]:
        return f"exit {code}"
    if p["state"] and doc not in (states[p["state"]], second):
        raise Violation(f"{what} printed another state: {diff(doc, states[p['state']])[:4]}", "select: wrong state")
    if p["docs"] is not None:
        hosts = {PEERS[n][0]: n for n in p["docs"]}
        if not isinstance(doc, dict) or set(doc) != set(hosts):
            raise Violation(f"{what} lists {sorted(doc or [])}, expected {sorted(hosts)}", "select: wrong list")
        if not p.get("bare"):
            for h, n in hosts.items():
                if n in states and doc[h] != states[n]:
                    raise Violation(f"{what} printed another state of {n}: {diff(doc[h], states[n])[:4]}", "select: wrong state")
    return f"exit {code}"
