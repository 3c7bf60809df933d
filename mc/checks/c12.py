"""C12: legacy devices - split updates merge completely, strip sockets stay separate."""

from __future__ import annotations

import asyncio
import copy

from mc import core
from mc.core import Violation

core.install_datetime()

from mc import iotsim  # noqa: E402

BOUNDS = {
    "quick": "every legacy fixture x every distinct way its update can be split x each service missing; all histories of 3 commands/updates on strips with 2-3 sockets (with and without meter) and on plugs, switches, dimmers, bulbs and light strips; a lost exchange at every position of the first and of a later update",
    "thorough": "histories of 4 steps, strips with 3 sockets, two lost exchanges",
}
ASSUMPTIONS = "strip-wide on/off is issued with up-to-date state, as the documentation requires; the sockets of a strip answer queries carrying their context with their own data; a device has the clock and the meter that its kind or feature field claims"

# services a device may lack
SERVICES = ["schedule", "anti_theft", "countdown", "cnCloud", "smartlife.iot.LAS", "smartlife.iot.PIR",
            "smartlife.iot.dimmer", "smartlife.iot.common.schedule", "smartlife.iot.common.anti_theft",
            "smartlife.iot.common.cloud", "smartlife.iot.lighting_effect"]


def make(fix, sockets=None, unsupported=()):
    data = iotsim.load("iot", fix)
    s = data["system"]["get_sysinfo"]
    if sockets is not None and "children" in s:
        s["children"] = s["children"][:sockets]
        s["child_num"] = sockets
    d = __import__("datetime").datetime.now()
    return iotsim.IotSim(data, unsupported=unsupported, today=(d.year, d.month, d.day))


def limited(cls, limit):
    if limit is None:
        return cls
    return type(cls.__name__, (cls,), {"max_device_response_size": property(lambda self: limit)})


# ---------------------------------------------------------------- the device as the library shows it
def _try(fn):
    try:
        return fn()
    except Exception as ex:  # noqa: BLE001
        return f"raised {ex!r}"


def mods(dev):
    return {str(n): m for n, m in dev.modules.items()}


def view(dev, sim, who=None):
    """Everything the library shows of one device, and what it should be."""
    from kasa import Module
    got, want = {}, {}

    def add(name, fn, exp):
        got[name], want[name] = _try(fn), exp

    s = sim.sysinfo()
    src = s if who is None else sim.socket(who)
    add("alias", lambda: dev.alias, src["alias"])
    add("mac", lambda: dev.mac.replace(":", "").upper(), s.get("mac", s.get("mic_mac", "")).replace(":", "").replace("-", "").upper())
    add("rssi", lambda: dev.rssi, s.get("rssi"))
    if who is None:
        add("sys_info", lambda: dev.sys_info, s)
        on = any(c["state"] for c in s["children"]) if sim.is_strip else \
            (s["light_state"]["on_off"] if sim.is_bulb else s["relay_state"])
    else:
        on = src["state"]
        add("next_action", lambda: dev.next_action, src["next_action"])
    add("is_on", lambda: dev.is_on, bool(on))
    add("state", lambda: dev.features["state"].value, bool(on))
    ms = dev.modules
    pre = "smartlife.iot.common." if sim.is_bulb else ""

    def has(svc):
        return sim.supports(svc)

    def module(name, svc):
        if not has(svc):
            add(f"{name} present", lambda: name in ms, False)
            return None
        add(f"{name} present", lambda: name in ms, True)
        return ms.get(name)

    if (m := module(Module.IotSchedule, pre + "schedule")):
        add("schedule rules", lambda: [r.id for r in m.rules], [r["id"] for r in sim.rules[who]])
        add("schedule enabled", lambda: m.data["get_rules"]["enable"], sim.enabled[who])
        add("schedule next", lambda: m.data["get_next_action"]["type"], 1 if sim.rules[who] else -1)
    if (m := module(Module.IotUsage, pre + "schedule")):
        k = max(sim.usage[who]["days"], default=None)
        add("usage today", lambda: m.usage_today, sim.usage[who]["days"][k] if k else None)
        k2 = max(sim.usage[who]["months"], default=None)
        add("usage month", lambda: m.usage_this_month, sim.usage[who]["months"][k2] if k2 else None)
        add("usage days", lambda: [e["time"] for e in m.daily_data], [v for k, v in sorted(sim.usage[who]["days"].items()) if k[1] == TODAY()[1]])
    if (m := module(Module.IotAntitheft, pre + "anti_theft")):
        add("anti theft rules", lambda: [r.id for r in m.rules], [r["id"] for r in sim.theft[who]])
    if sim.is_strip or sim.is_bulb:
        if (m := module(Module.IotCountdown, "countdown")):
            add("countdown rules", lambda: [r.id for r in m.rules], [r["id"] for r in sim.count[who]])
    if sim.has_meter:
        ids = sim.socket_ids if sim.is_strip and who is None else [who]
        if (m := module(Module.Energy, pre + "emeter") if not (sim.is_strip and who is None) else ms.get(Module.Energy)) and has(pre + "emeter"):
            x = [sim.meter[i] for i in ids]
            day = TODAY()
            num = lambda v: None if v is None else round(v, 3)  # noqa: E731
            add("power", lambda: num(m.current_consumption), num(sum(i["power_mw"] for i in x) / 1000))
            add("today", lambda: num(m.consumption_today), num(sum(i["days"].get(day, 0) for i in x) / 1000))
            add("month", lambda: num(m.consumption_this_month), num(sum(i["months"].get(day[:2], 0) for i in x) / 1000))
            if not sim.is_bulb:
                add("total", lambda: num(m.consumption_total), num(sum(i["total_wh"] for i in x) / 1000))
                add("current", lambda: num(m.current), num(sum(i["current_ma"] for i in x) / 1000))
                v = sum(i["voltage_mv"] for i in x) // len(x)
                add("voltage", lambda: abs(m.voltage * 1000 - v) < 1.5, True)
    if who is None:
        if (m := module(Module.Time, pre + "timesetting" if sim.is_bulb else "time")):
            add("time", lambda: m.time.replace(tzinfo=None).timetuple()[:6], tuple(sim.clock.values()))
        if (m := module(Module.IotCloud, pre + "cloud" if sim.is_bulb else "cnCloud")):
            add("cloud", lambda: m.is_connected, bool(sim.cloud["binded"]) if False else got_cloud(sim))
        if not sim.is_bulb and "led_off" in s:
            add("led", lambda: ms[Module.Led].led, not s["led_off"])
        if sim.supports("smartlife.iot.PIR") and Module.IotMotion in ms:
            add("pir enabled", lambda: ms[Module.IotMotion].enabled, bool(sim.pir["enable"]))
            add("pir timeout", lambda: ms[Module.IotMotion].inactivity_timeout, sim.pir["cold_time"])
            add("pir value", lambda: ms[Module.IotMotion].adc_value, sim.adc["value"])
        if sim.supports("smartlife.iot.LAS") and Module.IotAmbientLight in ms:
            add("las enabled", lambda: ms[Module.IotAmbientLight].enabled, bool(sim.las["devs"][0]["enable"]))
            add("las brightness", lambda: ms[Module.IotAmbientLight].ambientlight_brightness, sim.brt["value"])
        if Module.Light in ms:
            b = s["brightness"] if not sim.is_bulb else (
                s["lighting_effect_state"]["brightness"] if s.get("lighting_effect_state", {}).get("enable") else sim.light["brightness"])
            add("brightness", lambda: ms[Module.Light].brightness, b)
    if who is not None or sim.is_strip or "on_time" in s:
        add("on_since", lambda: on_since(dev), want_on_since(dev, sim, who))
    return got, want


def got_cloud(sim):
    return bool(sim.cloud["cld_connection"])


def on_since(dev):
    t = dev.on_since
    import datetime as d
    return t and t.astimezone(d.timezone.utc).replace(microsecond=0)


def want_on_since(dev, sim, who):
    import datetime as d
    # elapsed time is absolute: the zone's offset may have changed since
    now = dev.time
    t = d.datetime(*sim.clock.values(), tzinfo=now.tzinfo, fold=now.fold).astimezone(d.timezone.utc)
    s = sim.sysinfo()
    if who is not None:
        c = sim.socket(who)
        on = c["state"]
        secs = c["on_time"]
    elif sim.is_strip:
        ons = [c for c in s["children"] if c["state"]]
        on = bool(ons)
        secs = max((c["on_time"] for c in ons), default=0)
    else:
        on, secs = s["relay_state"] if not sim.is_bulb else s["light_state"]["on_off"], s["on_time"]
    return t - d.timedelta(seconds=secs) if on else None


def TODAY():
    import datetime as d
    t = d.datetime.now()
    return t.year, t.month, t.day


def compare(dev, sim, where, since=True):
    for who, d in [(None, dev)] + [(c.child_id, c) for c in dev.children]:
        got, want = view(d, sim, who)
        for k in want:
            a, b = got[k], want[k]
            if k == "on_since":
                if not since:
                    continue
                # the library hides jumps of up to five seconds
                if a is not None and b is not None and not isinstance(a, str) and abs((a - b).total_seconds()) <= 5:
                    continue
            if a != b:
                name = "device" if who is None else f"socket {sim.socket_ids.index(who)}"
                raise Violation(f"{where}: {name} {k}: the library shows {a!r}, the device has {b!r}", f"{'socket' if who is not None else 'device'} {k}")
    if [c.child_id for c in dev.children] != sim.socket_ids:
        raise Violation(f"{where}: children {[c.child_id for c in dev.children]}", "children")
    for d in [dev, *dev.children]:
        for f in d.features.values():
            try:
                f.value
            except Exception as ex:  # noqa: BLE001
                raise Violation(f"{where}: feature {f.id} cannot be read: {ex!r}", f"feature {f.id}")


# ---------------------------------------------------------------- splitting
def sizes(dev):
    return [m.estimated_query_response_size for m in dev._modules.values() if m.is_supported]


def limits(fix, unsupported):
    """All limits that make a different partition of the update."""
    async def go(loop):
        sim = make(fix, 2, unsupported)
        dev = iotsim.iot_device(sim)
        await dev.update()
        out = set()
        for d in [dev, *dev.children[:1]]:
            sz = [1024] + [m.estimated_query_response_size for m in d._modules.values()]
            for i in range(len(sz)):
                t = 0
                for x in sz[i:]:
                    t += x
                    out |= {t, t - 1}
        return sorted(x for x in out if x > 0)
    ctx = core.Ctx()
    return core.run_loop(ctx, go)


def part_split(ctx, p):
    async def main(loop):
        unsupported = p["unsup"]
        lim = ctx.pick([None] + p["limits"], "limit")
        sim = make(p["fix"], 2, unsupported)
        cls = iotsim.iot_class(sim)
        dev = iotsim.iot_device(sim, limited(cls, lim))
        reqs = []

        def on_send(r):
            reqs.append(r)
        sim.on_send = on_send
        if lim is not None and sim.is_strip:
            # the sockets are devices of their own class
            import kasa.iot.iotstrip as mod
            real = mod.IotStripPlug
            mod.IotStripPlug = limited(real, lim)
        try:
            for i in range(3):
                reqs.clear()
                await dev.update()
                compare(dev, sim, f"update {i + 1} with limit {lim}")
                check_sizes(dev, reqs, lim, i)
                change(sim, i)
        finally:
            if lim is not None and sim.is_strip:
                mod.IotStripPlug = real
        return f"{len(reqs)} requests"
    return core.run_loop(ctx, main)


EST = {"get_realtime": 0, "get_daystat": 0, "get_monthstat": 2048, "get_sysinfo": 1024, "get_rules": 256, "get_time": 256,
       "get_info": 256, "get_config": 256, "get_dimmer_parameters": 256}


def check_sizes(dev, reqs, lim, i):
    if lim is None:
        return
    for r in reqs:
        # by what the request asks for: statistics are large, the rest is small
        parts = [EST.get(c, 0) for t, cmds in r.items() if t != "context" for c in cmds]
        parts = [x for x in parts if x]
        if len(parts) > 1 and sum(parts) > lim:
            raise Violation(f"a request asks for {list(r)} estimated at {sum(parts)} bytes, the device can only build {lim}", "request too large")


def change(sim, i):
    """The device changes by itself."""
    s = sim.sys
    s["rssi"] = -50 - i
    for n, w in enumerate(sim.who_ids):
        sim.meter[w]["power_mw"] += 1000 * (i + n + 1)
        sim.meter[w]["days"][TODAY()] = 5000 + 10 * i + n
        sim.usage[w]["days"][TODAY()] = 77 + 10 * i + n
        sim.rules[w] = [iotsim.rule(7000 + 100 * i + n)] if (i + n) % 2 else []
        sim.theft[w] = [iotsim.rule(9000 + 100 * i + n)] if (i + n + 1) % 2 else []
        sim.count[w] = [iotsim.rule(9500 + 100 * i + n)] * ((i + n) % 3)
    sim.clock["sec"] = (sim.clock["sec"] + 1) % 60
    sim.pir["cold_time"] = 1000 * (i + 1)
    sim.adc["value"] = 60 + i
    sim.brt["value"] = 10 + i
    sim.las["devs"][0]["enable"] = i % 2
    for n, c in enumerate(s.get("children", [])):
        c["on_time"] = c["on_time"] + 100 + 40 * ((i + n) % 3) if c["state"] else 0


# ---------------------------------------------------------------- command histories
def snapshot(sim):
    return {k: copy.deepcopy(getattr(sim, k)) for k in
            ("sys", "meter", "usage", "rules", "count", "theft", "enabled", "clock", "tz_index", "las", "pir", "dim")} | \
        ({"light": dict(sim.light)} if sim.is_bulb else {})


def ops_for(dev, sim, sockets):
    """name -> (coroutine function, expected change of a snapshot)."""
    from kasa import Module
    ops = {}

    def socket_of(snap, i):
        return snap["sys"]["children"][i]

    def relay(snap, i, on):
        c = socket_of(snap, i)
        if c["state"] != on:
            c["on_time"] = 0
        c["state"] = on

    if sim.is_strip:
        for i in range(sockets):
            c, w = dev.children[i], sim.socket_ids[i]
            ops[f"on {i}"] = (c.turn_on, lambda s, i=i: relay(s, i, 1))
            ops[f"off {i}"] = (c.turn_off, lambda s, i=i: relay(s, i, 0))
            ops[f"alias {i}"] = (lambda c=c, i=i: c.set_alias(f"name {i}"), lambda s, i=i: socket_of(s, i).update(alias=f"name {i}"))
            ops[f"rules {i}"] = (lambda c=c: c.modules[Module.IotSchedule].delete_all_rules(), lambda s, w=w: s["rules"].update({w: []}))
            ops[f"schedule off {i}"] = (lambda c=c: c.modules[Module.IotSchedule].set_enabled(False), lambda s, w=w: s["enabled"].update({w: 0}))
            ops[f"usage {i}"] = (lambda c=c: c.modules[Module.IotUsage].erase_stats(), lambda s, w=w: s["usage"].update({w: {"days": {}, "months": {}}}))
            ops[f"countdown {i}"] = (lambda c=c: c.modules[Module.IotCountdown].delete_all_rules(), lambda s, w=w: s["count"].update({w: []}))
            if sim.has_meter:
                ops[f"energy {i}"] = (lambda c=c: c.modules[Module.Energy].erase_stats(),
                                      lambda s, w=w: s["meter"][w].update(days={}, months={}, total_wh=0))
        if sim.has_meter:
            def all_energy(s):
                for w in sim.socket_ids:
                    s["meter"][w].update(days={}, months={}, total_wh=0)
            ops["energy"] = (lambda: dev.modules[Module.Energy].erase_stats(), all_energy)
        ops["ALL on"] = (dev.turn_on, lambda s: [relay(s, i, 1) for i in range(sockets)])
        ops["ALL off"] = (dev.turn_off, lambda s: [relay(s, i, 0) for i in range(sockets)])
    else:
        def power(s, on):
            if sim.is_bulb:
                s["light"]["on_off"] = on
                return
            if s["sys"]["relay_state"] != on:
                s["sys"]["on_time"] = 0
            s["sys"]["relay_state"] = on
        ops["on"] = (dev.turn_on, lambda s: power(s, 1))
        ops["off"] = (dev.turn_off, lambda s: power(s, 0))
        ops["usage"] = (lambda: dev.modules[Module.IotUsage].erase_stats(), lambda s: s["usage"].update({None: {"days": {}, "months": {}}}))
        if sim.has_meter:
            ops["energy"] = (lambda: dev.modules[Module.Energy].erase_stats(), lambda s: s["meter"][None].update(days={}, months={}, total_wh=0))
    ops["alias"] = (lambda: dev.set_alias("whole"), lambda s: s["sys"].update(alias="whole"))
    ops["mac"] = (lambda: dev.set_mac("01:23:45:67:89:AB"), lambda s: s["sys"].update({"mac" if "mac" in s["sys"] else "mic_mac": "01:23:45:67:89:AB"}))
    ops["rules"] = (lambda: dev.modules[Module.IotSchedule].delete_all_rules(), lambda s: s["rules"].update({None: []}))
    if not sim.is_bulb and "led_off" in sim.sys:
        ops["led on"] = (lambda: dev.modules[Module.Led].set_led(True), lambda s: s["sys"].update(led_off=0))
        ops["led off"] = (lambda: dev.modules[Module.Led].set_led(False), lambda s: s["sys"].update(led_off=1))
    if Module.Light in dev.modules:
        def bright(s, v):
            eff = s["sys"].get("lighting_effect_state")
            if not sim.is_bulb:
                s["sys"]["brightness"] = v
                power(s, 1)  # setting the brightness turns a light on
            elif eff and eff["enable"]:
                eff["brightness"] = v
                s["light"]["on_off"] = 1
            else:
                s["light"].update(brightness=v, on_off=1)
        for v in (17, 64):
            ops[f"brightness {v}"] = (lambda v=v: dev.modules[Module.Light].set_brightness(v), lambda s, v=v: bright(s, v))
    return ops


def diff(a, b, path=""):
    if type(a) is not type(b) and not (isinstance(a, int) and isinstance(b, int)):
        return f"{path}: {a!r} / {b!r}"
    if isinstance(a, dict):
        for k in {**a, **b}:
            if k not in a or k not in b:
                return f"{path}.{k}: {a.get(k)!r} / {b.get(k)!r}"
            r = diff(a[k], b[k], f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: {a!r} / {b!r}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    return None if a == b else f"{path}: {a!r} / {b!r}"


def norm(snap):
    if "light" in snap:
        snap = {**snap, "sys": {k: v for k, v in snap["sys"].items() if k != "light_state"}}
    return snap


def part_hist(ctx, p):
    async def main(loop):
        sim = make(p["fix"], p.get("sockets"))
        dev = iotsim.iot_device(sim)
        await dev.update()
        n = len(sim.socket_ids)
        fresh = True
        trail = []
        children = list(dev.children)
        for i in range(p["n"]):
            ops = ops_for(dev, sim, n)
            names = ["update", "device", *([f"socket update {i}" for i in range(n)]), *ops]
            if not fresh:
                names = [x for x in names if not x.startswith("ALL")]
            name = p["first"] if i == 0 else ctx.pick(names, "step")
            if name not in names:
                return "n/a"
            trail.append(name)
            ctx.note("step", name)
            where = " -> ".join(trail)
            if name == "update":
                await dev.update()
                compare(dev, sim, where, since=False)
                fresh = True
                continue
            if name.startswith("socket update"):
                await children[int(name.split()[-1])].update()
                continue
            if name == "device":
                change(sim, i)
                for k, c in enumerate(sim.sys.get("children", [])):
                    sim.set_relay(c["id"], not c["state"] if k == i % n else c["state"])
                if not sim.is_strip and not sim.is_bulb:
                    sim.set_relay(None, not sim.sys["relay_state"])
                fresh = False
                continue
            fn, exp = ops[name]
            want = snapshot(sim)
            exp(want)
            try:
                await fn()
            except Exception as ex:  # noqa: BLE001
                raise Violation(f"{where}: raised {ex!r}", f"{name.split()[0]} raised")
            d = diff(norm(want), norm(snapshot(sim)))
            if d:
                raise Violation(f"{where}: wrong effect on the device (expected / actual): {d}", f"effect of {name.split()[0]}")
            fresh = False
        await dev.update()
        compare(dev, sim, " -> ".join(trail) + " -> update", since=False)
        if list(dev.children) != children:
            raise Violation("the socket objects changed", "socket objects")
        return tuple(sorted(set(trail)))[:2]
    return core.run_loop(ctx, main)


# ---------------------------------------------------------------- lost exchanges
def part_fault(ctx, p):
    async def main(loop):
        from kasa import KasaException
        sim = make(p["fix"], p.get("sockets"))
        ref = make(p["fix"], p.get("sockets"))
        rdev = iotsim.iot_device(ref)
        await rdev.update()
        want = [(sorted(d.features), sorted(map(str, d.modules))) for d in [rdev, *rdev.children]]
        dev = iotsim.iot_device(sim)
        lost = {"n": 0, "at": None}

        def on_send(r):
            lost["n"] += 1
            if lost["at"] is not None and lost["n"] >= lost["at"] and lost["n"] < lost["at"] + 4:
                from kasa.exceptions import KasaException
                raise KasaException("lost")
        sim.on_send = on_send
        out = []
        for i in range(p["n"]):
            lost["n"] = 0
            lost["at"] = ctx.pick([None, *range(1, p["max"] + 1)], f"exchange lost in update {i + 1}")
            try:
                await dev.update()
                out.append("ok")
                compare(dev, sim, f"update {i + 1} after {out}", since=False)
            except KasaException:
                out.append("failed")
            except Violation:
                raise
            except Exception as ex:  # noqa: BLE001
                raise Violation(f"update raised {ex!r}", "update raised")
            change(sim, i)
        lost["at"] = None
        try:
            await dev.update()
        except Exception as ex:  # noqa: BLE001
            raise Violation(f"healthy update after {out} raised {ex!r}", "healthy update raised")
        compare(dev, sim, f"healthy update after {out}", since=False)
        got = [(sorted(d.features), sorted(map(str, d.modules))) for d in [dev, *dev.children]]
        if got != want:
            raise Violation(f"features or modules missing after {out}: {got} instead of {want}", "incomplete after failed update")
        return tuple(out)
    return core.run_loop(ctx, main)


HIST = [("EP40(US)_1.0_1.0.2.json", 2), ("HS300(US)_2.0_1.0.12.json", 2), ("KP303(UK)_1.0_1.0.3.json", 3),
        ("HS110(EU)_4.0_1.0.4.json", None), ("HS110(EU)_1.0_1.2.5.json", None), ("KS200M(US)_1.0_1.0.10.json", None),
        ("ES20M(US)_1.0_1.0.11.json", None), ("HS220(US)_1.0_1.5.7.json", None), ("KL130(EU)_1.0_1.8.8.json", None),
        ("KL50(US)_1.0_1.1.13.json", None), ("KL430(US)_2.0_1.0.9.json", None), ("KL420L5(US)_1.0_1.0.2.json", None)]


def scenarios(tier):
    out = []
    deep = tier == "thorough"
    seen = {}
    for fix in iotsim.names("iot"):
        sim = make(fix, 2)
        svcs = [x for x in SERVICES if sim.supports(x)]
        key = (iotsim.iot_class(sim).__name__, tuple(svcs), sim.has_meter)
        full = key not in seen
        seen[key] = 1
        combos = [()] + ([(x,) for x in svcs] if full or deep else [])
        if deep and full:
            combos += [(a, b) for i, a in enumerate(svcs) for b in svcs[i + 1:]]
        lim = limits(fix, ()) if full or deep else [1, 2048, 4096]
        for c in combos:
            out.append(dict(part="split", fix=fix, unsup=c, limits=lim))
    for fix, n in HIST:
        sim = make(fix, n)
        dev = None

        async def go(loop):
            d = iotsim.iot_device(sim)
            await d.update()
            return list(ops_for(d, sim, len(sim.socket_ids)))
        ops = core.run_loop(core.Ctx(), go)
        for first in ["update", "device", *([f"socket update {i}" for i in range(len(sim.socket_ids))]), *ops]:
            out.append(dict(part="hist", fix=fix, sockets=n, first=first, n=(3 if n == 3 else 4) if deep else (2 if n == 3 else 3)))
    for fix, n in HIST:
        if make(fix, n).is_strip or deep:
            out.append(dict(part="fault", fix=fix, sockets=n, n=3 if deep else 2, max=8))
        else:
            out.append(dict(part="fault", fix=fix, sockets=n, n=2, max=6))
    return out


def run(ctx, p):
    return {"split": part_split, "hist": part_hist, "fault": part_fault}[p["part"]](ctx, p)
