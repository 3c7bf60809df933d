"""Public commands of devices and modules, with what each has to do.

Every command has a label, a call, and what it has to do: `effect(state)` changes a
snapshot of the device the way the command has to, `sent` is the list of requests of
commands that leave no trace in the stored state, `result` is what it has to return,
`fails` marks a call that has to be refused without any effect.
"""

from __future__ import annotations

import base64
import copy
import datetime as _d
from dataclasses import dataclass
from typing import Any

from mc import iotsim
from mc.checks import c17

ANY = object()


@dataclass
class Cmd:
    label: str
    call: Any  # fn(device) -> coroutine
    effect: Any = None  # fn(state) changes the snapshot
    sent: Any = None  # [(who, method, params)]
    result: Any = ANY  # expected result
    fails: Any = None  # expected exception types
    pre: Any = None  # fn(sim) -> None, before the update
    wait: float = 0  # time between pre and the update
    shown: bool = True  # a new object shows the same afterwards


def b64(x):
    return base64.b64encode(x.encode()).decode()


# ---------------------------------------------------------------- device state
def snapshot(kind, s):
    if kind == "iot":
        s.sysinfo()
        skip = ("children", "light_state", "on_time")
        out = {"root": dict(sys={k: v for k, v in s.sys.items() if k not in skip}, las=s.las, pir=s.pir, dim=s.dim,
                            behave=s.behave, clock=s.clock, tz=s.tz_index, cloud=s.cloud, light=getattr(s, "light", None))}
        for w in s.who_ids:
            out[w] = dict(rules=s.rules[w], theft=s.theft[w], count=s.count[w], enabled=s.enabled[w], usage=s.usage[w],
                          meter=s.meter[w])
            if w is not None:
                out[w]["sock"] = {k: v for k, v in s.socket(w).items() if k != "on_time"}
        return copy.deepcopy(out)
    return {who: copy.deepcopy({k: v for k, v in x.info.items() if k not in c17.CHILD_LISTS and k != "getSirenStatus"})
            for who, x in [("parent", s), *s.children.items()]}


IOT_SENT = {"reboot", "reset", "set_stainfo"}
SMART_SENT = {"device_reboot", "device_reset", "set_qs_info", "play_alarm", "stop_alarm", "playSelectAudio", "resetConsumablesTime",
              "setRobotPause", "setSwitchClean", "setSwitchCharge", "setSwitchDustCollection", "do", "setSirenStatus"}


def sent(kind, s, start):
    """Commands that leave no trace in the stored state."""
    out = []
    for e in s.log[start:]:
        if kind == "iot":
            who, target, cmd, arg, refused = e
            if cmd in IOT_SENT and not refused:
                out.append((who[0], f"{target}.{cmd}", arg))
        elif e[1] in SMART_SENT:
            out.append(e)
    return out


class Sim(iotsim.IotSim):
    """A legacy device that also scans and joins networks and limits brightness."""

    aps = ({"ssid": "one", "key_type": 3}, {"ssid": "Zwei ü", "key_type": 0, "rssi": -50})
    via = "netif"

    def supports(self, target):
        if target in ("netif", "smartlife.iot.common.softaponboarding"):
            return target == self.via
        return super().supports(target)

    def netif__get_scaninfo(self, who, a):
        return {"ap_list": [dict(x) for x in self.aps]}

    common_softaponboarding__get_scaninfo = netif__get_scaninfo

    def netif__set_stainfo(self, who, a):
        return None

    common_softaponboarding__set_stainfo = netif__set_stainfo

    def LAS__set_brt_level(self, who, a):
        arr = self.las["devs"][0]["level_array"]
        if not 0 <= a["index"] < len(arr) or type(a["value"]) is not int:
            return dict(iotsim.BADARG)
        arr[a["index"]]["value"] = a["value"]
        return None


def build(kind, fix):
    if kind == "iot":
        d = _d.datetime.now()
        s = Sim(iotsim.load("iot", fix), today=(d.year, d.month, d.day))
        return s, iotsim.iot_device(s)
    s, dev = c17.build(kind, fix)
    if kind != "smartcam" and "wireless" in s.comps:
        s.info["get_wireless_scan_info"] = {"start_index": 0, "sum": 23, "wep_supported": False, "ap_list": [
            {"ssid": b64(f"net {n}"), "cipher_type": n % 4, "key_type": ("none", "wpa2_psk")[n % 2], "channel": n,
             "signal_level": n % 4, "bssid": f"00:00:00:00:00:{n:02X}"} for n in range(23)]}
    return s, dev


# ---------------------------------------------------------------- legacy devices
RULES = {"schedule": "rules", "anti_theft": "theft", "countdown": "count"}


def iot_commands(s, dev, d, who):
    from kasa import KasaException
    from kasa.iot import iotdimmer
    from kasa.iot.iotbulb import BehaviorMode, TurnOnBehavior, TurnOnBehaviors
    from kasa.iot.modules.motion import Range

    C = Cmd
    mods = {str(k): m for k, m in d.modules.items()}
    out = []

    def own(st):
        return st["root"]["sys"] if who is None else st[who]["sock"]

    def m(name):
        return lambda x: next(v for k, v in x.modules.items() if str(k) == name)

    for name, key in RULES.items():
        if name not in mods or not mods[name].is_supported:
            continue
        rules = getattr(s, key)[who]
        for n in sorted({0, len(rules) - 1}) if rules else ():
            rid = rules[n]["id"]
            out.append(C(f"{name}.delete_rule {n}", lambda x, name=name, rid=rid: m(name)(x).delete_rule(
                next(r for r in m(name)(x).rules if r.id == rid)),
                lambda st, key=key, rid=rid: st[who].__setitem__(key, [r for r in st[who][key] if r["id"] != rid])))
        if rules:
            out.append(C(f"{name}.delete_rule gone", lambda x, name=name: _deleted_twice(m(name)(x)),
                         lambda st, key=key: st[who].__setitem__(key, st[who][key][1:]), fails=KasaException))
        out.append(C(f"{name}.delete_all_rules", lambda x, name=name: m(name)(x).delete_all_rules(),
                     lambda st, key=key: st[who].__setitem__(key, [])))
        if name == "schedule":
            for on in (True, False):
                out.append(C(f"{name}.set_enabled {on}", lambda x, on=on: m("schedule")(x).set_enabled(on),
                             lambda st, on=on: st[who].__setitem__("enabled", int(on))))
                out.append(C(f"{name}.set_enabled {on} without rules", lambda x, on=on: m("schedule")(x).set_enabled(on),
                             lambda st, on=on: st[who].__setitem__("enabled", int(on)), pre=lambda sim, key=key: getattr(sim, key)[who].clear()))
    if "usage" in mods and mods["usage"].is_supported:
        u = s.usage[who]
        for y, mo in sorted({k[:2] for k in u["days"]} | {(1999, 12)}):
            out.append(C(f"usage.get_daystat {y} {mo}", lambda x, y=y, mo=mo: m("usage")(x).get_daystat(year=y, month=mo),
                         result={k[2]: v for k, v in u["days"].items() if k[:2] == (y, mo)}))
            out.append(C(f"usage.get_monthstat {y}", lambda x, y=y: m("usage")(x).get_monthstat(year=y),
                         result={k[1]: v for k, v in u["months"].items() if k[0] == y}))
        t = _d.date.today()
        out.append(C("usage.get_daystat", lambda x: m("usage")(x).get_daystat(),
                     result={k[2]: v for k, v in u["days"].items() if k[:2] == (t.year, t.month)}))
        out.append(C("usage.get_monthstat", lambda x: m("usage")(x).get_monthstat(),
                     result={k[1]: v for k, v in u["months"].items() if k[0] == t.year}))
        out.append(C("usage.erase_stats", lambda x: m("usage")(x).erase_stats(),
                     lambda st: st[who].__setitem__("usage", {"days": {}, "months": {}})))
    if "Energy" in mods and s.has_meter:
        ws = s.socket_ids if who is None and s.is_strip else [who]

        def erase(st):
            for w in ws:
                st[w]["meter"].update(days={}, months={}, total_wh=0)
        out.append(C("Energy.erase_stats", lambda x: m("Energy")(x).erase_stats(), erase))
        for call in ("get_status", "get_daily_stats", "get_monthly_stats"):
            out.append(C(f"Energy.{call}", lambda x, call=call: getattr(m("Energy")(x), call)()))
    for al in ("New name", "Küche 漢字 \" \\", "x" * 31):
        out.append(C(f"set_alias {al[:10]}", lambda x, al=al: x.set_alias(al), lambda st, al=al: own(st).__setitem__("alias", al)))
    for on in (True, False):
        out.append(C(f"set_state {on}", lambda x, on=on: x.set_state(on), effect=ANY))
    if who is not None:
        return out
    mac = "50:C7:BF:01:02:03"
    key = "mac" if "mac" in s.sys else "mic_mac"
    out.append(C("set_mac", lambda x: x.set_mac(mac), lambda st: own(st).__setitem__(key, mac)))
    for n in (None, 0, 7):
        out.append(C(f"reboot {n}", lambda x, n=n: x.reboot() if n is None else x.reboot(n),
                     sent=[(None, "system.reboot", {"delay": 1 if n is None else n})]))
    out.append(C("factory_reset", lambda x: x.factory_reset(), sent=[(None, "system.reset", ANY)]))
    out.append(C("get_sys_info", lambda x: x.get_sys_info(), result=lambda r: r == s.sysinfo() or _same_sys(r, s)))
    found = [(a["ssid"], a.get("key_type"), a.get("rssi")) for a in Sim.aps]
    for via in ("netif", "smartlife.iot.common.softaponboarding"):
        pre = lambda s, via=via: setattr(s, "via", via)  # noqa: E731
        out.append(C(f"wifi_scan {via[:5]}", lambda x: x.wifi_scan(), pre=pre,
                     result=lambda r: [(n.ssid, n.key_type, n.rssi) for n in r] == found))
        for args, kt in (((), 3), (("0",), 0), (("2",), 2)):
            out.append(C(f"wifi_join {via[:5]} {args}", lambda x, args=args: x.wifi_join("My net", "pass wörd", *args), pre=pre,
                         sent=[(None, f"{via}.set_stainfo", {"ssid": "My net", "password": "pass wörd", "key_type": kt})]))
    if s.is_bulb and hasattr(d, "get_light_details"):
        out.append(C("get_light_details", lambda x: x.get_light_details(),
                     result={"color_rendering_index": 80, "max_lumens": 800, "wattage": 10}))
        out.append(C("get_light_state", lambda x: x.get_light_state(), result=lambda r: r == s.sysinfo()["light_state"]))
        for hard, soft in (("last_status", "customize_preset"), ("customize_preset", "last_status"), ("circadian", "last_status")):
            def beh(mode, n):
                return {"mode": mode, **({"index": n} if mode == "customize_preset" else {})}

            def pre(s, hard=hard, soft=soft):
                s.behave.update(hard_on=beh(hard, 1), soft_on=beh(soft, 2))
            out.append(C(f"get_turn_on_behavior {hard} {soft}", lambda x: x.get_turn_on_behavior(), pre=pre,
                         result=lambda r, hard=hard, soft=soft: [(r.hard.mode, r.hard.preset), (r.soft.mode, r.soft.preset)] == [
                             (beh(hard, 1)["mode"], beh(hard, 1).get("index")), (beh(soft, 2)["mode"], beh(soft, 2).get("index"))]))
            out.append(C(f"set_turn_on_behavior {hard} {soft}", lambda x, hard=hard, soft=soft: x.set_turn_on_behavior(TurnOnBehaviors(
                hard=TurnOnBehavior(mode=BehaviorMode(hard), preset=beh(hard, 1).get("index")),
                soft=TurnOnBehavior(mode=BehaviorMode(soft), preset=beh(soft, 2).get("index")))),
                lambda st, hard=hard, soft=soft: st["root"]["behave"].update(hard_on=beh(hard, 1), soft_on=beh(soft, 2))))

        async def keep(x):
            await x.set_turn_on_behavior(await x.get_turn_on_behavior())
        out.append(C("set_turn_on_behavior as it is", keep, lambda st: None))
        for mode in ("last_status", "customize_preset", "circadian"):
            for n in (0, 2, None):
                async def only(x, n=n):
                    b = await x.get_turn_on_behavior()
                    b.soft.preset = n
                    await x.set_turn_on_behavior(b)
                want = {"mode": "customize_preset", "index": n} if n is not None else {"mode": "last_status" if mode == "customize_preset" else mode}
                out.append(C(f"set_turn_on_behavior from {mode} to preset {n}", only,
                             lambda st, want=want: st["root"]["behave"].__setitem__("soft_on", want),
                             pre=lambda s, mode=mode: s.behave.__setitem__("soft_on", beh(mode, 1))))
    if hasattr(d, "get_behaviors"):
        if s.dim is not None:
            out.append(C("get_behaviors", lambda x: x.get_behaviors(), result=lambda r: r == s.behave))
            for at in iotdimmer.ActionType:
                for ac in iotdimmer.ButtonAction:
                    for idx in (None, 0, 2):
                        k = {"double_click_action": "double_click", "long_press_action": "long_press"}[at.value]
                        want = {"mode": ac.value, **({} if idx is None else {"index": idx})}
                        out.append(C(f"set_button_action {at.name} {ac.name} {idx}",
                                     lambda x, at=at, ac=ac, idx=idx: x.set_button_action(at, ac, idx),
                                     lambda st, k=k, want=want: st["root"]["behave"].__setitem__(k, want)))
            for ft in iotdimmer.FadeType:
                for t in (0, 1, 2500):
                    k = {"fade_on": "fadeOnTime", "fade_off": "fadeOffTime"}[ft.value]
                    out.append(C(f"set_fade_time {ft.name} {t}", lambda x, ft=ft, t=t: x.set_fade_time(ft, t),
                                 lambda st, k=k, t=t: st["root"]["dim"].__setitem__(k, t)))
    if "dimmer" in mods and s.dim is not None:
        for meth, k, vals, bad in (
                ("set_threshold_min", "minThreshold", (0, 1, 51), (-1, 52)), ("set_ramp_rate", "rampRate", (10, 11, 50), (9, 51)),
                ("set_fade_on_time", "fadeOnTime", (0, 1, 9999, 10000), (-1, 10001)), ("set_fade_off_time", "fadeOffTime", (0, 10000), (-1, 10001)),
                ("set_gentle_on_time", "gentleOnTime", (0, 9999, 120000), (-1, 120001)),
                ("set_gentle_off_time", "gentleOffTime", (0, 120000), (-1, 120001))):
            td = "time" in meth
            for v in vals:
                for conv in (int, lambda v: _d.timedelta(milliseconds=v)) if td else (int,):
                    out.append(C(f"dimmer.{meth} {conv(v)!r}", lambda x, meth=meth, a=conv(v): getattr(m("dimmer")(x), meth)(a),
                                 lambda st, k=k, v=v: st["root"]["dim"].__setitem__(k, v)))
            for v in bad:
                for conv in (int, lambda v: _d.timedelta(milliseconds=v)) if td else (int,):
                    out.append(C(f"dimmer.{meth} {conv(v)!r}", lambda x, meth=meth, a=conv(v): getattr(m("dimmer")(x), meth)(a),
                                 lambda st: None, fails=(KasaException, ValueError)))
    if "ambient" in mods and mods["ambient"].is_supported and s.supports("smartlife.iot.LAS"):
        out.append(C("ambient.current_brightness", lambda x: m("ambient")(x).current_brightness(), result=lambda r: r == s.brt))
        for on in (True, False):
            out.append(C(f"ambient.set_enabled {on}", lambda x, on=on: m("ambient")(x).set_enabled(on),
                         lambda st, on=on: st["root"]["las"]["devs"][0].__setitem__("enable", int(on))))
        for v in (0, 1, 42, 100):
            out.append(C(f"ambient.set_brightness_limit {v}", lambda x, v=v: m("ambient")(x).set_brightness_limit(v),
                         lambda st, v=v: st["root"]["las"]["devs"][0]["level_array"][0].__setitem__("value", v)))
    if "motion" in mods and mods["motion"].is_supported and s.supports("smartlife.iot.PIR"):
        for on in (True, False):
            out.append(C(f"motion.set_enabled {on}", lambda x, on=on: m("motion")(x).set_enabled(on),
                         lambda st, on=on: st["root"]["pir"].__setitem__("enable", int(on))))
        for r in Range:
            out.append(C(f"motion.set_range {r.name}", lambda x, r=r: m("motion")(x).set_range(r),
                         lambda st, r=r: st["root"]["pir"].__setitem__("trigger_index", r.value)))
        for v in (0, 1, 55, 100):
            def thr(st, v=v):
                st["root"]["pir"]["trigger_index"] = 3
                st["root"]["pir"]["array"][3] = v
            out.append(C(f"motion.set_threshold {v}", lambda x, v=v: m("motion")(x).set_threshold(v), thr))
        for v in (0, 60000, 3600000):
            out.append(C(f"motion.set_inactivity_timeout {v}", lambda x, v=v: m("motion")(x).set_inactivity_timeout(v),
                         lambda st, v=v: st["root"]["pir"].__setitem__("cold_time", v)))
        out.append(C("motion.get_pir_state", lambda x: m("motion")(x).get_pir_state(),
                     result=lambda r: (r.adc_value, r.pir_config.enabled, r.pir_config.range.value) == (
                         s.adc["value"], bool(s.pir["enable"]), s.pir["trigger_index"])))
    return out


def _same_sys(r, s):
    return {k: v for k, v in r.items() if k != "err_code"} == {k: v for k, v in s.sysinfo().items() if k != "err_code"}


async def _deleted_twice(mod):
    r = mod.rules[0]
    await mod.delete_rule(r)
    await mod.delete_rule(r)


# ---------------------------------------------------------------- SMART devices
def smart_commands(s, dev, d, who):
    from kasa import AuthenticationError, KasaException  # noqa: F401
    from kasa.smart.modules.clean import Status

    C = Cmd
    node = s if who == "parent" else s.children[who]
    info = node.info["get_device_info"]
    mods = {str(k): m for k, m in d.modules.items()}
    out = []

    def m(name):
        return lambda x: next(v for k, v in x.modules.items() if str(k) == name)

    def put(*path_value):
        *path, value = path_value

        def effect(st):
            t = st[who]
            for p in path[:-1]:
                t = t[p]
            t[path[-1]] = value
        return effect

    for al in ("New name", "Küche 漢字 \" \\", "x" * 31):
        out.append(C(f"set_alias {al[:10]}", lambda x, al=al: x.set_alias(al), put("get_device_info", "nickname", b64(al))))
    if "device_on" in info:
        for on in (True, False):
            out.append(C(f"set_state {on}", lambda x, on=on: x.set_state(on), put("get_device_info", "device_on", on)))
            out.append(C("turn_on" if on else "turn_off", lambda x, on=on: x.turn_on() if on else x.turn_off(),
                         put("get_device_info", "device_on", on)))
    for n in (None, 0, 7):
        out.append(C(f"reboot {n}", lambda x, n=n: x.reboot() if n is None else x.reboot(n),
                     sent=[(who, "device_reboot", {"delay": 1 if n is None else n})]))
    if who == "parent" or not isinstance(s, c17.sim.CamSim):  # not carried by camera hubs
        out.append(C("factory_reset", lambda x: x.factory_reset(), sent=[(who, "device_reset", ANY)]))
    if who == "parent" and "wireless" in s.comps:
        want = [(f"net {n}", n % 4, ("none", "wpa2_psk")[n % 2], n, n % 4) for n in range(23)]
        out.append(C("wifi_scan", lambda x: x.wifi_scan(),
                     result=lambda r: [(w.ssid, w.cipher_type, w.key_type, w.channel, w.signal_level) for w in r] == want))
    if who == "parent" and "time" in s.comps:
        t = d.internal_state.get("get_device_time")
        from mc.sim import CREDS
        for args, kt in (((), "wpa2_psk"), (("none",), "none")):
            out.append(C(f"wifi_join {args}", lambda x, args=args: x.wifi_join("Mein Nétz", "pass wörd", *args), sent=[(who, "set_qs_info", {
                "account": {"username": b64(CREDS[0]), "password": b64(CREDS[1])}, "time": t,
                "wireless": {"key_type": kt, "password": b64("pass wörd"), "ssid": b64("Mein Nétz")}})]))
        out.append(C("update_credentials", lambda x: x.update_credentials("new@üser.de", "n€w"), sent=[(who, "set_qs_info", {
            "account": {"username": b64("new@üser.de"), "password": b64("n€w")}, "time": t})]))
    if "Alarm" in mods and type(mods["Alarm"]).__module__.startswith("kasa.smart."):
        out += alarm_commands(node, who, m("Alarm"), put)
    if "AutoOff" in mods:
        for on in (True, False):
            out.append(C(f"AutoOff.set_enabled {on}", lambda x, on=on: m("AutoOff")(x).set_enabled(on), put("get_auto_off_config", "enable", on)))
        for n in (1, 10, 120):
            out.append(C(f"AutoOff.set_delay {n}", lambda x, n=n: m("AutoOff")(x).set_delay(n), put("get_auto_off_config", "delay_min", n)))
    if "Clean" in mods:
        go = ("setSwitchClean", {"clean_mode": 0, "clean_on": True, "clean_order": True, "force_clean": False})
        for st in Status:
            if st.value < 0:
                continue

            def pre(s, st=st):
                s.info["getVacStatus"].update(status=st.value, err_status=[])
            out.append(C(f"Clean.start {st.name}", lambda x: m("Clean")(x).start(), pre=pre,
                         sent=[(who, *(("setRobotPause", {"pause": False}) if st is Status.Paused else go))]))
            out.append(C(f"Clean.pause {st.name}", lambda x: m("Clean")(x).pause(), pre=pre,
                         sent=[(who, *(("setSwitchCharge", {"switch_charge": False}) if st is Status.GoingHome else
                                       ("setRobotPause", {"pause": True})))]))
            out.append(C(f"Clean.resume {st.name}", lambda x: m("Clean")(x).resume(), pre=pre, sent=[(who, "setRobotPause", {"pause": False})]))
            out.append(C(f"Clean.return_home {st.name}", lambda x: m("Clean")(x).return_home(), pre=pre,
                         sent=[(who, "setSwitchCharge", {"switch_charge": True})]))
        for on in (True, False):
            out.append(C(f"Clean.set_pause {on}", lambda x, on=on: m("Clean")(x).set_pause(on), sent=[(who, "setRobotPause", {"pause": on})]))
            out.append(C(f"Clean.set_return_home {on}", lambda x, on=on: m("Clean")(x).set_return_home(on),
                         sent=[(who, "setSwitchCharge", {"switch_charge": on})]))
            out.append(C(f"Clean.set_carpet_boost {on}", lambda x, on=on: m("Clean")(x).set_carpet_boost(on),
                         put("getCarpetClean", "carpet_clean_prefer", "boost" if on else "normal")))
        for n in (1, 2, 3):
            out.append(C(f"Clean.set_clean_count {n}", lambda x, n=n: m("Clean")(x).set_clean_count(n), put("getCleanAttr", "clean_number", n)))
        for n, v in dict(Quiet=1, Standard=2, Turbo=3, Max=4, Ultra=5).items():
            out.append(C(f"Clean.set_fan_speed_preset {n}", lambda x, n=n: m("Clean")(x).set_fan_speed_preset(n), put("getCleanAttr", "suction", v)))
        out.append(C("Clean.set_fan_speed_preset bad", lambda x: m("Clean")(x).set_fan_speed_preset("quiet"), lambda st: None, fails=ValueError))
    if "Mop" in mods:
        for n, v in dict(Disable=0, Low=1, Medium=2, High=3).items():
            out.append(C(f"Mop.set_waterlevel {n}", lambda x, n=n: m("Mop")(x).set_waterlevel(n), put("getCleanAttr", "cistern", v)))
        out.append(C("Mop.set_waterlevel bad", lambda x: m("Mop")(x).set_waterlevel("high"), lambda st: None, fails=ValueError))
    if "Consumables" in mods:
        names = {"main_brush": "roll_brush", "side_brush": "edge_brush", "filter": "filter", "sensor": "sensor",
                 "charging_contacts": "charge_contact"}
        for k in mods["Consumables"].consumables:
            out.append(C(f"Consumables.reset {k}", lambda x, k=k: m("Consumables")(x).reset_consumable(k),
                         sent=[(who, "resetConsumablesTime", {"reset_list": [names[k]]})]))
        out.append(C("Consumables.reset none", lambda x: m("Consumables")(x).reset_consumable("nothing"), lambda st: None, sent=[], fails=Exception))
    if "Dustbin" in mods:
        out.append(C("Dustbin.start_emptying", lambda x: m("Dustbin")(x).start_emptying(),
                     sent=[(who, "setSwitchDustCollection", {"switch_dust_collection": True})]))
        for on in (True, False):
            out.append(C(f"Dustbin.set_auto_collection {on}", lambda x, on=on: m("Dustbin")(x).set_auto_collection(on),
                         put("getDustCollectionInfo", "auto_dust_collection", on)))
        for n, v in dict(Smart=0, Light=1, Balanced=2, Max=3).items():
            out.append(C(f"Dustbin.set_mode {n}", lambda x, n=n: m("Dustbin")(x).set_mode(n), lambda st, v=v: st[who]["getDustCollectionInfo"].update(
                auto_dust_collection=True, dust_collection_mode=v)))
        out.append(C("Dustbin.set_mode Off", lambda x: m("Dustbin")(x).set_mode("Off"), put("getDustCollectionInfo", "auto_dust_collection", False)))
        out.append(C("Dustbin.set_mode bad", lambda x: m("Dustbin")(x).set_mode("max"), lambda st: None, fails=ValueError))
    if "Speaker" in mods:
        out.append(C("Speaker.locate", lambda x: m("Speaker")(x).locate(), sent=[(who, "playSelectAudio", {"audio_type": "seek_me"})]))
        for v in (0, 1, 100):
            out.append(C(f"Speaker.set_volume {v}", lambda x, v=v: m("Speaker")(x).set_volume(v), put("getVolume", "volume", v)))
        for v in (-1, 101):
            out.append(C(f"Speaker.set_volume {v}", lambda x, v=v: m("Speaker")(x).set_volume(v), lambda st: None, fails=ValueError))
    if "FrostProtection" in mods and "frost_protection_on" in info:
        for on in (True, False):
            out.append(C(f"FrostProtection.set_enabled {on}", lambda x, on=on: m("FrostProtection")(x).set_enabled(on),
                         put("get_device_info", "frost_protection_on", on)))
    if "LightTransition" in mods:
        out += transition_commands(node, s, who, m("LightTransition"))
    if "PowerProtection" in mods and hasattr(mods["PowerProtection"], "set_protection_threshold"):
        out += protection_commands(node, who, m("PowerProtection"))
    if "TemperatureControl" in mods:
        lo, hi = info["min_control_temp"], info["max_control_temp"]
        for mod in ("TemperatureControl", "Thermostat"):
            for on in (True, False):
                out.append(C(f"{mod}.set_state {on}", lambda x, on=on, mod=mod: m(mod)(x).set_state(on),
                             put("get_device_info", "frost_protection_on", not on)))
            for t in (lo, lo + 0.5, (lo + hi) // 2, hi):
                for frost in (True, False):
                    def pre(s, frost=frost):
                        (s if who == "parent" else s.children[who]).info["get_device_info"]["frost_protection_on"] = frost

                    def eff(st, t=t):
                        st[who]["get_device_info"].update(target_temp=t, frost_protection_on=False)
                    out.append(C(f"{mod}.set_target_temperature {t} {frost}", lambda x, t=t, mod=mod: m(mod)(x).set_target_temperature(t), eff, pre=pre))
            for t in (lo - 1, lo - 0.1, hi + 0.1, hi + 1):
                out.append(C(f"{mod}.set_target_temperature {t}", lambda x, t=t, mod=mod: m(mod)(x).set_target_temperature(t), lambda st: None,
                             fails=ValueError))
            for u in ("celsius", "fahrenheit") if mod == "Thermostat" else ():
                out.append(C(f"{mod}.set_temperature_unit {u}", lambda x, u=u, mod=mod: m(mod)(x).set_temperature_unit(u),
                             put("get_device_info", "temp_unit", u)))
        for v in (-10, -1, 0, 10):
            out.append(C(f"TemperatureControl.set_temperature_offset {v}", lambda x, v=v: m("TemperatureControl")(x).set_temperature_offset(v),
                         put("get_device_info", "temp_offset", v)))
        for v in (-11, 11):
            out.append(C(f"TemperatureControl.set_temperature_offset {v}", lambda x, v=v: m("TemperatureControl")(x).set_temperature_offset(v),
                         lambda st: None, fails=ValueError))
    if "Firmware" in mods:
        if isinstance(node.info.get("get_auto_update_info"), dict):
            for on in (True, False):
                out.append(C(f"Firmware.set_auto_update_enabled {on}", lambda x, on=on: m("Firmware")(x).set_auto_update_enabled(on),
                             put("get_auto_update_info", "enable", on)))
        out.append(C("Firmware.check_latest_firmware", lambda x: m("Firmware")(x).check_latest_firmware(), effect=ANY, shown=False))
    if "Led" in mods:
        for on in (True, False):
            for rule in ("always", "never", "night_mode"):
                def pre(s, rule=rule):
                    s.get("get_led_info", None)
                    s.info["get_led_info"].update(led_rule=rule, led_status=rule != "never")
                out.append(C(f"Led.set_led {on} from {rule}", lambda x, on=on: m("Led")(x).set_led(on), lambda st, on=on: st[who]["get_led_info"].update(
                    led_rule="always" if on else "never", led_status=on), pre=pre))
    for n, key in (("ChildProtection", ("get_device_info", "child_protection")), ("ChildLock", ("getChildLockInfo", "child_lock_status"))):
        if n in mods:
            for on in (True, False):
                out.append(C(f"{n}.set_enabled {on}", lambda x, on=on, n=n: m(n)(x).set_enabled(on), put(*key, on)))
    if "TemperatureSensor" in mods and "temp_unit" in info:
        for u in ("celsius", "fahrenheit"):
            out.append(C(f"TemperatureSensor.set_temperature_unit {u}", lambda x, u=u: m("TemperatureSensor")(x).set_temperature_unit(u),
                         put("get_device_info", "temp_unit", u)))
    if "Fan" in mods and "fan_speed_level" in info:
        for v in (0, 1, 4):
            out.append(C(f"Fan.set_fan_speed_level {v}", lambda x, v=v: m("Fan")(x).set_fan_speed_level(v),
                         put("get_device_info", "device_on", False) if v == 0 else
                         lambda st, v=v: st[who]["get_device_info"].update(device_on=True, fan_speed_level=v)))
        for v in (-1, 5):
            out.append(C(f"Fan.set_fan_speed_level {v}", lambda x, v=v: m("Fan")(x).set_fan_speed_level(v), lambda st: None, fails=ValueError))
        for on in (True, False):
            out.append(C(f"Fan.set_sleep_mode {on}", lambda x, on=on: m("Fan")(x).set_sleep_mode(on), put("get_device_info", "fan_sleep_mode_on", on)))
    return out


def alarm_commands(node, who, m, put):
    C = Cmd
    out = []
    node.get("get_support_alarm_type_list", None)
    sounds = node.info["get_support_alarm_type_list"]["alarm_type_list"]
    vols = {"mute": "mute", "low": "low", "normal": "normal", "high": "high", 0: "mute", 1: "low", 2: "normal", 3: "high"}
    for a, b in vols.items():
        out.append(C(f"Alarm.set_alarm_volume {a}", lambda x, a=a: m(x).set_alarm_volume(a), put("get_alarm_configure", "volume", b)))
        out.append(C(f"Alarm.play volume {a}", lambda x, a=a: m(x).play(volume=a), sent=[(who, "play_alarm", {"alarm_volume": b})]))
    for n in (1, 2, 600):
        out.append(C(f"Alarm.set_alarm_duration {n}", lambda x, n=n: m(x).set_alarm_duration(n), put("get_alarm_configure", "duration", n)))
        out.append(C(f"Alarm.play duration {n}", lambda x, n=n: m(x).play(duration=n), sent=[(who, "play_alarm", {"alarm_duration": n})]))
    for x_ in (sounds[0], sounds[-1]):
        out.append(C(f"Alarm.set_alarm_sound {x_}", lambda x, a=x_: m(x).set_alarm_sound(a), put("get_alarm_configure", "type", x_)))
        out.append(C(f"Alarm.play sound {x_}", lambda x, a=x_: m(x).play(sound=a), sent=[(who, "play_alarm", {"alarm_type": x_})]))
    out.append(C("Alarm.play", lambda x: m(x).play(), sent=[(who, "play_alarm", ({}, None))]))
    out.append(C("Alarm.play all", lambda x: m(x).play(duration=3, volume=2, sound=sounds[-1]),
                 sent=[(who, "play_alarm", {"alarm_duration": 3, "alarm_volume": "normal", "alarm_type": sounds[-1]})]))
    out.append(C("Alarm.stop", lambda x: m(x).stop(), sent=[(who, "stop_alarm", ANY)]))
    for kw in (dict(duration=0), dict(duration=601), dict(volume=4), dict(volume=-1), dict(volume="loud"), dict(sound="no such"),
               dict(duration=5, volume=1, sound=""), dict(duration=601, volume=1)):
        out.append(C(f"Alarm.play {kw}", lambda x, kw=kw: m(x).play(**kw), lambda st: None, sent=[], fails=ValueError))
    for meth, v in (("duration", 0), ("duration", 601), ("volume", 4), ("volume", "loud"), ("sound", "no such")):
        out.append(C(f"Alarm.set_alarm_{meth} {v}", lambda x, meth=meth, v=v: getattr(m(x), "set_alarm_" + meth)(v), lambda st: None, fails=ValueError))
    return out


def transition_commands(node, s, who, m):
    C = Cmd
    out = []
    conf = node.info.get("get_on_off_gradually_info")
    conf = conf if isinstance(conf, dict) else {}
    places = []  # where the device keeps it: (path, names of its parts, type of the switch)
    if "gradually_on_mode" in node.info["get_device_info"]:
        places.append({side: (("get_device_info",), (f"gradually_{side}_mode", f"fade_{side}_time", f"max_fade_{side}_time"), int) for side in ("on", "off")})
    if "on_state" in conf:
        places.append({side: (("get_on_off_gradually_info", side + "_state"), ("enable", "duration", "max_duration"), bool) for side in ("on", "off")})
    if not places:
        for on in (True, False) if "enable" in conf else ():
            out.append(C(f"LightTransition.set_enabled {on}", lambda x, on=on: m(x).set_enabled(on),
                         lambda st, on=on: st[who]["get_on_off_gradually_info"].update(enable=on)))
        return out

    def write(st, side, on, n=None):
        for pl in places:
            path, keys, flag = pl[side]
            t = st
            for k in path:
                t = t[k]
            t[keys[0]] = flag(on)
            if n:
                t[keys[1]] = n

    def read(side, n):
        path, keys, _ = places[0][side]
        t = node.info
        for k in path:
            t = t[k]
        return t.get(keys[n])

    top = {side: read(side, 2) or 60 for side in ("on", "off")}
    for was in ((True, True), (True, False), (False, True), (False, False)):
        def pre(sim, was=was):
            x = sim if who == "parent" else sim.children[who]
            for side, e, n in (("on", was[0], 5), ("off", was[1], 9)):
                write(x.info, side, e, n)

        for on in (True, False):
            def eff(st, on=on):
                for side in ("on", "off"):
                    write(st[who], side, on)
            out.append(C(f"LightTransition.set_enabled {on} from {was}", lambda x, on=on: m(x).set_enabled(on), eff, pre=pre, wait=100))
        for side in ("on", "off"):
            name = f"set_turn_{side}_transition"
            for n in (0, 1, top[side]):
                out.append(C(f"LightTransition.{name} {n} from {was}", lambda x, name=name, n=n: getattr(m(x), name)(n),
                             lambda st, side=side, n=n: write(st[who], side, n > 0, n), pre=pre, wait=100))
            out.append(C(f"LightTransition.{name} {top[side] + 1} from {was}", lambda x, name=name, n=top[side] + 1: getattr(m(x), name)(n),
                         lambda st: None, pre=pre, wait=100, fails=ValueError))
    return out


def protection_commands(node, who, m):
    C = Cmd
    out = []
    node.get("get_max_power", None)
    top = node.info["get_max_power"]["max_power"]
    for on0, p0 in ((False, 0), (False, 700), (True, 700)):
        def pre(s, on0=on0, p0=p0):
            n = s if who == "parent" else s.children[who]
            n.get("get_protection_power", None)
            n.info["get_protection_power"].update(enabled=on0, protection_power=p0)

        def eff(on, p, p0=p0):
            def f(st):
                st[who]["get_protection_power"].update({} if p is None else {"protection_power": p})
                if on is not None:
                    st[who]["get_protection_power"]["enabled"] = on
            return f
        tag = f"from {on0} {p0}"
        out.append(C(f"PowerProtection.set_enabled True {tag}", lambda x: m(x).set_enabled(True), eff(True, top // 2 if p0 == 0 else p0), pre=pre))
        out.append(C(f"PowerProtection.set_enabled False {tag}", lambda x: m(x).set_enabled(False), eff(False, None), pre=pre))
        for p in (1, 50, top):
            out.append(C(f"PowerProtection.set_enabled True {p} {tag}", lambda x, p=p: m(x).set_enabled(True, threshold=p), eff(True, p), pre=pre))
            out.append(C(f"PowerProtection.set_protection_threshold {p} {tag}", lambda x, p=p: m(x).set_protection_threshold(p), eff(None, p), pre=pre))
        for p in (-1, top + 1):
            out.append(C(f"PowerProtection.set_enabled True {p} {tag}", lambda x, p=p: m(x).set_enabled(True, threshold=p), lambda st: None, pre=pre,
                         fails=ValueError))
            out.append(C(f"PowerProtection.set_protection_threshold {p} {tag}", lambda x, p=p: m(x).set_protection_threshold(p), lambda st: None,
                         pre=pre, fails=ValueError))
    return out


# ---------------------------------------------------------------- cameras
DETECT = {"MotionDetection": ("getDetectionConfig", "motion_detection", "motion_det"),
          "PersonDetection": ("getPersonDetectionConfig", "people_detection", "detection"),
          "PetDetection": ("getPetDetectionConfig", "pet_detection", "detection"),
          "TamperDetection": ("getTamperDetectionConfig", "tamper_detection", "tamper_det"),
          "BabyCryDetection": ("getBCDConfig", "sound_detection", "bcd"),
          "LensMask": ("getLensMaskConfig", "lens_mask", "lens_mask_info")}


def cam_commands(s, dev, d, who):
    C = Cmd
    node = s if who == "parent" else s.children[who]
    mods = {str(k): m for k, m in d.modules.items()}
    out = []

    def m(name):
        return lambda x: next(v for k, v in x.modules.items() if str(k) == name)

    def put(*path_value):
        *path, value = path_value

        def effect(st):
            t = st[who]
            for p in path[:-1]:
                t = t[p]
            t[path[-1]] = value
        return effect

    if who == "parent":
        for al in ("New name", "Küche 漢字"):
            out.append(C(f"set_alias {al[:10]}", lambda x, al=al: x.set_alias(al), put("getDeviceInfo", "device_info", "basic_info", "device_alias", al)))
    for n, (g, a, b) in DETECT.items():
        if n in mods:
            for on in (True, False):
                out.append(C(f"{n}.set_enabled {on}", lambda x, on=on, n=n: m(n)(x).set_enabled(on), put(g, a, b, "enabled", "on" if on else "off")))
    if "LensMask" in mods:
        for on in (True, False):
            eff = put("getLensMaskConfig", "lens_mask", "lens_mask_info", "enabled", "off" if on else "on")
            out.append(C(f"Camera.set_state {on}", lambda x, on=on: m("Camera")(x).set_state(on), eff))
            out.append(C(f"set_state {on}", lambda x, on=on: x.set_state(on), eff))
            out.append(C("turn_on" if on else "turn_off", lambda x, on=on: x.turn_on() if on else x.turn_off(), eff))
    if "Led" in mods:
        for on in (True, False):
            out.append(C(f"Led.set_led {on}", lambda x, on=on: m("Led")(x).set_led(on), put("getLedStatus", "led", "config", "enabled", "on" if on else "off")))
    if "PanTilt" in mods:
        def mv(p, t):
            return [(who, "do", {"motor": {"move": {"x_coord": str(p), "y_coord": str(t)}}})]
        for p, t in ((0, 0), (10, -20), (-180, 5), (360, 180)):
            out.append(C(f"PanTilt.move {p} {t}", lambda x, p=p, t=t: m("PanTilt")(x).move(pan=p, tilt=t), sent=mv(p, t)))
        for p in (-7, 30):
            out.append(C(f"PanTilt.pan {p}", lambda x, p=p: m("PanTilt")(x).pan(p), sent=mv(p, 0)))
            out.append(C(f"PanTilt.tilt {p}", lambda x, p=p: m("PanTilt")(x).tilt(p), sent=mv(0, p)))
    if "Alarm" in mods and type(mods["Alarm"]).__module__.startswith("kasa.smartcam."):
        sounds = node.info["getSirenTypeList"]["siren_type_list"]
        on, off = [(who, "setSirenStatus", {"siren": {"status": v}}) for v in ("on", "off")]

        def cfg(**kw):
            return lambda st: st[who]["getSirenConfig"].update(kw)
        fs = d.features
        (dlo, dhi), (vlo, vhi) = ((fs[k].minimum_value, fs[k].maximum_value) for k in ("alarm_duration", "alarm_volume"))
        for n in sorted({dlo, 1, 30, 600, dhi}):
            out.append(C(f"Alarm.set_alarm_duration {n}", lambda x, n=n: m("Alarm")(x).set_alarm_duration(n), cfg(duration=n)))
            out.append(C(f"Alarm.play duration {n}", lambda x, n=n: m("Alarm")(x).play(duration=n), cfg(duration=n), sent=[on]))
        for n in sorted({vlo, 1, 5, vhi}):
            out.append(C(f"Alarm.set_alarm_volume {n}", lambda x, n=n: m("Alarm")(x).set_alarm_volume(n), cfg(volume=str(n))))
            out.append(C(f"Alarm.play volume {n}", lambda x, n=n: m("Alarm")(x).play(volume=n), cfg(volume=str(n)), sent=[on]))
        for n in (sounds[0], sounds[-1]):
            out.append(C(f"Alarm.set_alarm_sound {n}", lambda x, n=n: m("Alarm")(x).set_alarm_sound(n), cfg(siren_type=n)))
            out.append(C(f"Alarm.play sound {n}", lambda x, n=n: m("Alarm")(x).play(sound=n), cfg(siren_type=n), sent=[on]))
        out.append(C("Alarm.play all", lambda x: m("Alarm")(x).play(duration=dlo, volume=vlo, sound=sounds[-1]),
                     cfg(duration=dlo, volume=str(vlo), siren_type=sounds[-1]), sent=[on]))
        out.append(C("Alarm.play", lambda x: m("Alarm")(x).play(), lambda st: None, sent=[on]))
        out.append(C("Alarm.stop", lambda x: m("Alarm")(x).stop(), lambda st: None, sent=[off]))
        for kw in (dict(duration=dlo - 1), dict(duration=dhi + 1), dict(volume=vlo - 1), dict(volume=vhi + 1), dict(sound="no such"),
                   dict(duration=dhi + 1, volume=5), dict(duration=5, volume=vhi + 1)):
            out.append(C(f"Alarm.play {kw}", lambda x, kw=kw: m("Alarm")(x).play(**kw), lambda st: None, sent=[], fails=ValueError))
    return out


def commands(kind, s, dev):
    """[(index of the device, Cmd)] for the device and its children."""
    out = []
    for n, d in enumerate([dev, *dev.children]):
        who = c17.who_of(kind, dev, d)
        if kind == "iot":
            cs = iot_commands(s, dev, d, who)
        elif type(d).__module__.startswith("kasa.smartcam"):
            cs = cam_commands(s, dev, d, who)
        else:
            cs = smart_commands(s, dev, d, who)
        out += [(n, c) for c in cs]
    return out
