"""Simulated legacy (IOT) devices built from tests/fixtures/iot.

The device is modelled from its own side: relay, light, dimmer, clock, meter and
rule state, with the commands that change them.  On a strip every socket has its own
relay, name, meter, usage, rules and countdown; a command with a socket context
touches only the sockets named.
"""

from __future__ import annotations

import copy
import datetime as _dt

from mc.sim import Base, CREDS, _wire, load, names  # noqa: F401

NOMOD = {"err_code": -1, "err_msg": "module not support"}
NOCMD = {"err_code": -2, "err_msg": "member not support"}
BADARG = {"err_code": -3, "err_msg": "invalid argument"}

ALIASES = {  # one service under two names
    "smartlife.iot.common.schedule": "schedule",
    "smartlife.iot.common.anti_theft": "anti_theft",
    "smartlife.iot.common.timesetting": "time",
    "smartlife.iot.common.emeter": "emeter",
    "smartlife.iot.common.cloud": "cnCloud",
    "smartlife.iot.common.system": "system",
    "smartlife.iot.smartbulb.lightingservice": "light",
    "smartlife.iot.lightStrip": "light",
    "smartlife.iot.lighting_effect": "effect",
}

CLOUD = {"username": "", "server": "devs.tplinkcloud.com", "binded": 0, "cld_connection": 0, "illegalType": -1,
         "stopConnect": -1, "tcspStatus": -1, "fwDlPage": "", "tcspInfo": "", "fwNotifyType": 0}
LAS = {"devs": [{"hw_id": 0, "enable": 0, "dark_index": 1, "min_adc": 0, "max_adc": 2450, "level_array": [
    {"name": "cloudy", "adc": 490, "value": 20}, {"name": "overcast", "adc": 294, "value": 12},
    {"name": "dawn", "adc": 222, "value": 9}, {"name": "twilight", "adc": 222, "value": 9},
    {"name": "total darkness", "adc": 111, "value": 4}, {"name": "custom", "adc": 2400, "value": 97}]}], "ver": "1.0"}
PIR = {"enable": 0, "version": "1.0", "trigger_index": 2, "cold_time": 60000, "min_adc": 0, "max_adc": 4095,
       "array": [80, 50, 20, 0]}
LIGHT_KEYS = {"on_off", "ignore_default", "hue", "saturation", "color_temp", "brightness", "transition_period", "mode"}


def rule(n):
    return {"id": f"{n:032X}", "name": f"rule {n}", "enable": 1, "wday": [1] * 7, "repeat": 1, "sact": n % 2,
            "stime_opt": 0, "smin": 60 + n, "eact": -1}


class IotSim(Base):
    """One legacy device."""

    def __init__(self, data, *, unsupported=(), today=(2023, 11, 14)):
        super().__init__()
        self.info = data
        self.sys = data["system"]["get_sysinfo"]
        self.is_strip = "children" in self.sys
        self.is_bulb = "BULB" in self.sys.get("type", self.sys.get("mic_type", ""))
        self.is_lightstrip = self.is_bulb and "length" in self.sys
        self.has_meter = self.is_bulb or "ENE" in (self.sys.get("feature") or "")
        self.socket_ids = [c["id"] for c in self.sys.get("children", [])]
        self.unsupported = set(unsupported)  # service names, as asked for
        rt = (data.get("emeter") or {}).get("get_realtime") or \
            (data.get("smartlife.iot.common.emeter") or {}).get("get_realtime") or {}
        self.new_units = self.is_bulb or "power_mw" in rt
        self.meter_keys = None  # restrict realtime keys (old names): set of power, voltage, current, total
        self.units_mixed = None
        self.who_ids = [None] + self.socket_ids
        y, m, d = today
        self.meter, self.usage, self.rules, self.count, self.theft, self.enabled = {}, {}, {}, {}, {}, {}
        for n, w in enumerate(self.who_ids):
            k = n + 1
            self.meter[w] = {
                "power_mw": 1000 * k + 234, "voltage_mv": 230_000 + 17 * k, "current_ma": 100 * k + 11,
                "total_wh": 5000 * k + 7,
                "days": {(y, m, d): 111 * k, (y, m, d - 1): 222 * k},
                "months": {(y, m): 3333 * k, (y, m - 1): 4444 * k}}
            self.usage[w] = {"days": {(y, m, d): 10 + k, (y, m, d - 1): 20 + k},
                             "months": {(y, m): 100 + k, (y, m - 1): 200 + k}}
            self.rules[w] = [rule(100 * k + i) for i in range(1 + n % 2)]
            self.theft[w] = [rule(1000 * k + i) for i in range(n % 2)]
            self.count[w] = [rule(5000 * k)]
            self.enabled[w] = 1
        tm = data.get("time") or data.get("smartlife.iot.common.timesetting") or {}
        t = tm.get("get_time") or {"year": y, "month": m, "mday": d, "hour": 3, "min": 4, "sec": 5}
        self.clock = {k: t[k] for k in ("year", "month", "mday", "hour", "min", "sec")}
        self.tz_index = (tm.get("get_timezone") or {}).get("index", 39)
        self.tz_supported = True
        self.cloud = {**CLOUD, **{k: v for k, v in ((data.get("cnCloud") or data.get("smartlife.iot.common.cloud")
                                                      or {}).get("get_info") or {}).items() if k != "err_code"}}
        self.las = self._mod("smartlife.iot.LAS", "get_config", LAS)
        self.brt = self._mod("smartlife.iot.LAS", "get_current_brt", {"value": 26})
        self.pir = self._mod("smartlife.iot.PIR", "get_config", PIR)
        self.adc = self._mod("smartlife.iot.PIR", "get_adc_value", {"value": 50})
        self.dim = self._mod("smartlife.iot.dimmer", "get_dimmer_parameters", None)
        self.behave = {"double_click": {"mode": "none"}, "long_press": {"mode": "instant_on_off"},
                       "hard_on": {"mode": "last_status"}, "soft_on": {"mode": "last_status"}}
        if self.is_bulb:
            ls = self.sys["light_state"]
            st = ls if ls["on_off"] else ls["dft_on_state"]
            self.light = {"on_off": ls["on_off"], "mode": "normal",
                          **{k: st.get(k, 0) for k in ("hue", "saturation", "color_temp", "brightness")}}

    def _mod(self, target, cmd, default):
        d = self.info.get(target) or {}
        if cmd in d:
            return {k: v for k, v in d[cmd].items() if k != "err_code"}
        return copy.deepcopy(default)

    @classmethod
    def fixture(cls, name, **kw):
        return cls(load("iot", name), **kw)

    # -- what the device supports
    def supports(self, target):
        if target in self.unsupported:
            return False
        if target == "system" or (target == "smartlife.iot.common.system" and self.is_bulb):
            return True
        v = self.info.get(target)
        if isinstance(v, dict) and "err_code" in v and v["err_code"] != 0:
            return False
        bulb_names = target.startswith("smartlife.iot.")
        base = ALIASES.get(target, target)
        if base in ("schedule", "time", "cnCloud", "anti_theft"):
            return bulb_names == self.is_bulb
        if base == "countdown":
            return self.is_strip or not self.is_bulb
        if base == "emeter":
            return self.has_meter and bulb_names == self.is_bulb
        if target == "smartlife.iot.smartbulb.lightingservice":
            return self.is_bulb and not self.is_lightstrip
        if target in ("smartlife.iot.lightStrip", "smartlife.iot.lighting_effect"):
            return self.is_lightstrip
        if target in ("smartlife.iot.LAS", "smartlife.iot.PIR"):
            return isinstance(v, dict)
        if target == "smartlife.iot.dimmer":
            return self.dim is not None
        return target in self.info

    # -- execution
    def answer(self, req):
        ctx = req.get("context", {}).get("child_ids")
        whos = [None] if ctx is None else list(ctx)
        out = {}
        for target, cmds in req.items():
            if target == "context":
                continue
            if not self.supports(target):
                for cmd, arg in cmds.items():
                    self.log.append((tuple(whos), target, cmd, arg, "unsupported"))
                out[target] = dict(NOMOD)
                continue
            res = out[target] = {}
            for cmd, arg in cmds.items():
                self.log.append((tuple(whos), target, cmd, copy.deepcopy(arg), None))
                if self.fault is not None:
                    f = self.fault(whos, target, cmd, arg)
                    if f is not None:
                        res[cmd] = f
                        continue
                for who in whos:
                    if who is not None and who not in self.socket_ids:
                        r = {"err_code": -14, "err_msg": "entry not exist"}
                    else:
                        r = self.one(who, ALIASES.get(target, target), cmd, dict(arg or {}))
                r = _wire(r) if r is not None else {}
                r.setdefault("err_code", 0)
                if target == "system" and cmd == "get_sysinfo" and "err_code" not in self.sys:
                    pass
                res[cmd] = r
        return out

    def one(self, who, svc, cmd, a):
        fn = getattr(self, f"{svc.replace('smartlife.iot.', '').replace('.', '_')}__{cmd}", None)
        if fn is None:
            return dict(NOCMD)
        return fn(who, a)

    def sysinfo(self):
        s = self.sys
        if self.is_bulb:
            st = {k: self.light[k] for k in ("mode", "hue", "saturation", "color_temp", "brightness")}
            s["light_state"] = {"on_off": 1, **st} if self.light["on_off"] else {"on_off": 0, "dft_on_state": st}
        return s

    def socket(self, who):
        return next(c for c in self.sys["children"] if c["id"] == who)

    # system
    def system__get_sysinfo(self, who, a):
        return copy.deepcopy(self.sysinfo())

    def set_relay(self, who, on):
        tgt = self.sys if who is None else self.socket(who)
        key = "relay_state" if who is None else "state"
        if tgt[key] != int(on):
            tgt["on_time"] = 0
        tgt[key] = int(on)

    def system__set_relay_state(self, who, a):
        if who is None and self.is_strip:
            for c in self.socket_ids:
                self.set_relay(c, a["state"])
            return None
        if self.is_bulb:
            return dict(NOCMD)
        self.set_relay(who, a["state"])

    def system__set_dev_alias(self, who, a):
        (self.sys if who is None else self.socket(who))["alias"] = a["alias"]

    def system__set_led_off(self, who, a):
        if "led_off" not in self.sys:
            return dict(NOCMD)
        self.sys["led_off"] = a["off"]

    def system__set_mac_addr(self, who, a):
        self.sys["mac" if "mac" in self.sys else "mic_mac"] = a["mac"]

    def system__reboot(self, who, a):
        return None

    def system__reset(self, who, a):
        return None

    # schedule, usage
    def _stats(self, src, who, a, month, value):
        y = a.get("year")
        if month:
            return [{"year": k[0], "month": k[1], "day": k[2], **value(v)} for k, v in sorted(src[who]["days"].items())
                    if k[0] == y and k[1] == a.get("month")]
        return [{"year": k[0], "month": k[1], **value(v)} for k, v in sorted(src[who]["months"].items()) if k[0] == y]

    def schedule__get_daystat(self, who, a):
        return {"day_list": self._stats(self.usage, who, a, True, lambda v: {"time": v})}

    def schedule__get_monthstat(self, who, a):
        return {"month_list": self._stats(self.usage, who, a, False, lambda v: {"time": v})}

    def schedule__erase_runtime_stat(self, who, a):
        self.usage[who] = {"days": {}, "months": {}}

    def schedule__get_rules(self, who, a):
        return {"rule_list": self.rules[who], "version": 2, "enable": self.enabled[who]}

    def schedule__get_next_action(self, who, a):
        r = self.rules[who]
        return {"type": 1, "id": r[0]["id"], "schd_time": 60 * r[0]["smin"], "action": r[0]["sact"]} if r \
            else {"type": -1}

    def schedule__set_overall_enable(self, who, a):
        self.enabled[who] = int(a["enable"])

    def _delete(self, lst, a):
        n = [r for r in lst if r["id"] != a["id"]]
        if len(n) == len(lst):
            return dict(BADARG)
        lst[:] = n
        return None

    def schedule__delete_rule(self, who, a):
        return self._delete(self.rules[who], a)

    def schedule__delete_all_rules(self, who, a):
        self.rules[who] = []

    def anti_theft__get_rules(self, who, a):
        return {"rule_list": self.theft[who], "version": 2, "enable": 1}

    def anti_theft__get_next_action(self, who, a):
        return {"type": -1, "n": len(self.theft[who])}

    def anti_theft__delete_all_rules(self, who, a):
        self.theft[who] = []

    def anti_theft__delete_rule(self, who, a):
        return self._delete(self.theft[who], a)

    def countdown__get_rules(self, who, a):
        return {"rule_list": self.count[who]}

    def countdown__get_next_action(self, who, a):
        return {"type": -1, "n": len(self.count[who])}

    def countdown__delete_all_rules(self, who, a):
        self.count[who] = []

    def countdown__delete_rule(self, who, a):
        return self._delete(self.count[who], a)

    # meter
    def _rt(self, who):
        m = self.meter[who]
        out = {}
        keys = self.meter_keys or ({"power"} if self.is_bulb else {"power", "voltage", "current", "total"})
        for k, new, div in (("voltage", "voltage_mv", 1000), ("current", "current_ma", 1000),
                            ("power", "power_mw", 1000), ("total", "total_wh", 1000)):
            if k in keys:
                if self.new_units:
                    out[new] = m[new]
                else:
                    out[k] = m[new] / div
        return out

    def emeter__get_realtime(self, who, a):
        return self._rt(who)

    def _wh(self, v):
        return {"energy_wh": v} if self.new_units else {"energy": v / 1000}

    def emeter__get_daystat(self, who, a):
        return {"day_list": self._stats(self.meter, who, a, True, self._wh)}

    def emeter__get_monthstat(self, who, a):
        return {"month_list": self._stats(self.meter, who, a, False, self._wh)}

    def emeter__erase_emeter_stat(self, who, a):
        self.meter[who]["days"] = {}
        self.meter[who]["months"] = {}
        self.meter[who]["total_wh"] = 0

    # clock
    def time__get_time(self, who, a):
        return dict(self.clock)

    def time__get_timezone(self, who, a):
        return {"index": self.tz_index} if self.tz_supported else dict(NOCMD)

    def _set_clock(self, a):
        try:
            _dt.datetime(a["year"], a["month"], a["mday"], a["hour"], a["min"], a["sec"])
        except (KeyError, ValueError, TypeError):
            return dict(BADARG)
        self.clock = {k: a[k] for k in ("year", "month", "mday", "hour", "min", "sec")}
        return None

    def time__set_time(self, who, a):
        if set(a) - {"year", "month", "mday", "hour", "min", "sec"}:
            self.unknown_keys.append(("time", "set_time", sorted(a)))
        return self._set_clock(a)

    def time__set_timezone(self, who, a):
        r = self._set_clock(a)
        if r is None:
            if not isinstance(a.get("index"), int):
                return dict(BADARG)
            self.tz_index = a["index"]
        return r

    # cloud
    def cnCloud__get_info(self, who, a):
        return dict(self.cloud)

    # ambient light, motion
    def LAS__get_config(self, who, a):
        return copy.deepcopy(self.las)

    def LAS__get_current_brt(self, who, a):
        return dict(self.brt)

    def LAS__set_enable(self, who, a):
        self.las["devs"][0]["enable"] = a["enable"]

    def PIR__get_config(self, who, a):
        return copy.deepcopy(self.pir)

    def PIR__get_adc_value(self, who, a):
        return dict(self.adc)

    def PIR__set_enable(self, who, a):
        self.pir["enable"] = a["enable"]

    def PIR__set_cold_time(self, who, a):
        self.pir["cold_time"] = a["cold_time"]

    def PIR__set_trigger_sens(self, who, a):
        i = a["index"]
        if not isinstance(i, int) or not 0 <= i < len(self.pir["array"]):
            return dict(BADARG)
        self.pir["trigger_index"] = i
        if "value" in a:
            if i != len(self.pir["array"]) - 1:
                return dict(BADARG)
            self.pir["array"][i] = a["value"]
        return None

    # dimmer
    def dimmer__get_dimmer_parameters(self, who, a):
        return dict(self.dim)

    def dimmer__get_default_behavior(self, who, a):
        return copy.deepcopy(self.behave)

    def dimmer__set_brightness(self, who, a):
        b = a["brightness"]
        if type(b) is not int or not 1 <= b <= 100:
            return dict(BADARG)
        self.sys["brightness"] = b

    def dimmer__set_dimmer_transition(self, who, a):
        b, d = a["brightness"], a["duration"]
        if type(b) is not int or not 0 <= b <= 100 or type(d) is not int or d < 1:
            return dict(BADARG)
        if b == 0:
            self.set_relay(None, 0)
        else:
            self.set_relay(None, 1)
            self.sys["brightness"] = b

    def _dimset(self, arg, key, lo=0, hi=10**9):
        def fn(who, a):
            if arg not in a or type(a[arg]) is not int or not lo <= a[arg] <= hi:
                return dict(BADARG)
            self.dim[key] = a[arg]
        return fn

    def __getattr__(self, name):
        tab = {"dimmer__calibrate_brightness": ("minThreshold", "minThreshold"),
               "dimmer__set_fade_on_time": ("fadeTime", "fadeOnTime"),
               "dimmer__set_fade_off_time": ("fadeTime", "fadeOffTime"),
               "dimmer__set_gentle_on_time": ("duration", "gentleOnTime"),
               "dimmer__set_gentle_off_time": ("duration", "gentleOffTime"),
               "dimmer__set_button_ramp_rate": ("rampRate", "rampRate")}
        if name in tab:
            return self._dimset(*tab[name])
        if name in ("dimmer__set_double_click_action", "dimmer__set_long_press_action"):
            def fn(who, a):
                if a.get("mode") not in ("none", "instant_on_off", "gentle_on_off", "customize_preset"):
                    return dict(BADARG)
                self.behave[name[len("dimmer__set_"):-len("_action")]] = dict(a)
            return fn
        raise AttributeError(name)

    # light
    def light__get_light_state(self, who, a):
        return copy.deepcopy(self.sysinfo()["light_state"])

    def light__get_light_details(self, who, a):
        return {"color_rendering_index": 80, "max_lumens": 800, "wattage": 10}

    def light__get_default_behavior(self, who, a):
        return {k: dict(self.behave[k]) for k in ("hard_on", "soft_on")}

    def light__set_default_behavior(self, who, a):
        for k in ("hard_on", "soft_on"):
            if k in a:
                self.behave[k] = copy.deepcopy(a[k])

    def _transition(self, a):
        s = self.sys
        for k in a:
            if k not in LIGHT_KEYS:
                self.unknown_keys.append(("light", "state", k))
        lim = {"on_off": (0, 1), "hue": (0, 360), "saturation": (0, 100), "brightness": (0, 100),
               "color_temp": (0, 9000)}
        for k, (lo, hi) in lim.items():
            if k in a and (type(a[k]) is not int or not lo <= a[k] <= hi):
                return dict(BADARG)
        if not a.get("on_off", 1):
            self.light["on_off"] = 0
            for k in ("hue", "saturation", "color_temp", "brightness"):
                if k in a:
                    self.light[k] = a[k]
            return copy.deepcopy(self.sysinfo()["light_state"])
        soft = self.behave["soft_on"]
        if not self.light["on_off"] and not a.get("ignore_default") and soft.get("mode") == "customize_preset":
            pre = next(p for p in s["preferred_state"] if p["index"] == soft["index"])
            a = {k: pre[k] for k in ("hue", "saturation", "color_temp", "brightness")}  # on in the default state
        self.light["on_off"] = 1
        eff = s.get("lighting_effect_state")
        if eff is not None and eff["enable"]:
            if {"hue", "saturation", "color_temp"} & set(a):
                eff["enable"] = 0
            elif "brightness" in a:
                eff["brightness"] = a["brightness"]
                return copy.deepcopy(self.sysinfo()["light_state"])
        for k in ("hue", "saturation", "color_temp", "brightness"):
            if k in a:
                self.light[k] = a[k]
        return copy.deepcopy(self.sysinfo()["light_state"])

    def light__transition_light_state(self, who, a):
        return dict(NOCMD) if self.is_lightstrip else self._transition(a)

    def light__set_light_state(self, who, a):
        return self._transition(a) if self.is_lightstrip else dict(NOCMD)

    def light__set_preferred_state(self, who, a):
        lst = self.sys["preferred_state"]
        for n, e in enumerate(lst):
            if e["index"] == a.get("index"):
                lst[n] = dict(a)
                return None
        return dict(BADARG)

    def effect__set_lighting_effect(self, who, a):
        st = self.sys["lighting_effect_state"]
        for k in ("brightness", "custom", "enable", "id", "name"):
            if k in a:
                st[k] = a[k]
        self.effect_sent = copy.deepcopy(a)

    # wifi
    def netif__get_scaninfo(self, who, a):
        return {"ap_list": []}


def iot_class(sim):
    from kasa.device_factory import get_device_class_from_sys_info
    return get_device_class_from_sys_info({"system": {"get_sysinfo": sim.sysinfo()}})


def iot_device(sim, cls=None):
    from kasa.protocols import IotProtocol
    cls = cls or iot_class(sim)
    return cls("127.0.0.123", protocol=IotProtocol(transport=sim.transport()))
