"""Simulated devices built from the data recorded in /repo/tests/fixtures.

Each simulator keeps the device's state, executes requests with the semantics of
the device (its own getters and setters), and logs every executed request.
"""

from __future__ import annotations

import copy
import inspect
import json
import os
import pickle
from functools import lru_cache
from pathlib import Path

REPO = os.environ.get("KASA_REPO", "/repo")
FIX = Path(REPO) / "tests" / "fixtures"

PARAMS_ERROR = -1008
UNKNOWN_METHOD = -1002
CREDS = ("user@example.com", "S3cret-pass")


@lru_cache(None)
def _pickled(kind, name):
    return pickle.dumps(json.loads((FIX / kind / name).read_text()))


def load(kind, name):
    """A private copy of one fixture."""
    return pickle.loads(_pickled(kind, name))


@lru_cache(None)
def names(kind):
    return tuple(sorted(p.name for p in (FIX / kind).glob("*.json")))


SMART_DEFAULTS = {
    # method: (component, minimum version, result)
    "get_wireless_scan_info": ("wireless", 1, {"ap_list": [], "wep_supported": False}),
    "get_auto_off_config": ("auto_off", 1, {"delay_min": 10, "enable": False}),
    "get_led_info": ("led", 1, {"led_rule": "never", "led_status": False, "night_mode": {
        "end_time": 420, "night_mode_type": "sunrise_sunset", "start_time": 1140,
        "sunrise_offset": 0, "sunset_offset": 0}}),
    "get_latest_fw": ("firmware", 1, {"fw_size": 0, "fw_ver": "1.0.5 Build 230801 Rel.095702", "hw_id": "",
                                      "need_to_upgrade": False, "oem_id": "", "release_date": "",
                                      "release_note": "", "type": 0}),
    "get_homekit_info": ("homekit", 1, {"mfi_setup_code": "000-00-000", "mfi_setup_id": "0000",
                                        "mfi_token_token": "0", "mfi_token_uuid": "0"}),
    "get_auto_update_info": ("firmware", 2, {"enable": True, "random_range": 120, "time": 180}),
    "get_alarm_configure": ("alarm", 1, {"duration": 10, "type": "Doorbell Ring 2", "volume": "low"}),
    "get_support_alarm_type_list": ("alarm", 1, {"alarm_type_list": ["Doorbell Ring 1", "Doorbell Ring 2"]}),
    "get_device_usage": ("device", 2, {"power_usage": {"past30": 1, "past7": 1, "today": 1}}),
    "get_connect_cloud_state": ("cloud_connect", 1, {"status": 0}),
    "get_emeter_data": ("energy_monitoring", 2, {"current_ma": 33, "energy_wh": 971, "power_mw": 1003,
                                                 "voltage_mv": 121215}),
    "get_emeter_vgain_igain": ("energy_monitoring", 2, {"igain": 10861, "vgain": 118657}),
    "get_current_power": ("energy_monitoring", 2, {"current_power": 1}),
    "get_energy_usage": ("energy_monitoring", 1, {
        "current_power": 1003, "electricity_charge": [0, 0, 0], "local_time": "2024-01-01 00:00:00",
        "month_energy": 1500, "month_runtime": 100, "today_energy": 20, "today_runtime": 10}),
    "get_protection_power": ("power_protection", 1, {"enabled": False, "protection_power": 0}),
    "get_max_power": ("power_protection", 1, {"max_power": 3904}),
    "get_matter_setup_info": ("matter", 1, {"setup_code": "00000000000", "setup_payload": "00:0000000-0000.00.000"}),
    "get_support_child_device_category": ("child_quick_setup", 1,
                                          {"device_category_list": [{"category": "subg.trv"}]}),
    "get_scan_child_device_list": ("child_quick_setup", 1, {"child_device_list": [], "scan_status": "idle"}),
    "get_device_time": ("time", 1, {"region": "Europe/Berlin", "time_diff": 60, "timestamp": 1_700_000_000}),
    "get_trigger_logs": ("trigger_log", 1, {"logs": [], "start_id": 0, "sum": 0}),
    "get_preset_rules": ("preset", 1, {"states": []}),
}
NO_GETTER = {"setRobotPause", "setSwitchClean", "setSwitchCharge", "setSwitchDustCollection"}
ACTIONS = {"set_qs_info", "fw_download", "play_alarm", "stop_alarm", "begin_scanning_child_device",
           "playSelectAudio", "resetConsumablesTime", "device_reboot", "device_reset", "heartbeat"}


class Base:
    """Common bookkeeping."""

    def __init__(self):
        self.log = []  # (who, method, params)
        self.fault = None  # fn(who, method, params) -> None | error code
        self.tag = None  # fn(who, method, result)
        self.on_send = None  # fn(request) -> None, may raise or return an answer; may be a coroutine function
        self.sends = 0
        self.unknown_keys = []

    def transport(self, host="127.0.0.123", creds=True):
        from kasa import Credentials
        from mc.fake import make_transport

        async def handler(req, tr):
            self.sends += 1
            if self.on_send is not None:
                r = self.on_send(req)
                if inspect.isawaitable(r):
                    r = await r
                if r is not None:
                    return r
            return self.answer(req)

        return make_transport(host, handler, credentials=Credentials(*CREDS) if creds else None)


def json_type(x):
    if isinstance(x, bool):
        return "bool"
    return "number" if isinstance(x, (int, float)) else type(x).__name__


def _wire(x):
    return json.loads(json.dumps(x))


# ---------------------------------------------------------------- SMART
class SmartSim(Base):
    """A SMART device, with its children when it has any."""

    def __init__(self, data, who="parent", root=None):
        super().__init__()
        self.who = who
        self.root = root or self
        self.info = data
        self.children = {}
        self.comps = {}
        if "component_nego" in data:
            self.comps = {c["id"]: c["ver_code"] for c in data["component_nego"]["component_list"]}
        if root is None:
            self._load_children()

    @classmethod
    def fixture(cls, name, kind="smart"):
        return cls(load(kind, name))

    # -- children
    def _load_children(self, key="get_child_device_list", comp_key="get_child_device_component_list"):
        lst = (self.info.get(key) or {}).get("child_device_list")
        if not lst:
            return
        comp = {c["device_id"]: c for c in self.info[comp_key]["child_component_list"]}
        for pos, ci in enumerate(lst):
            cid = ci.get("device_id")
            if not cid or cid not in comp:
                continue
            self._add_child_sim(cid, ci, comp[cid], pos, lst)

    def _add_child_sim(self, cid, ci, comp, pos, lst):
        fixture = None
        if ci.get("category") == "camera":
            fixture = _find_child("smartcam/child", ci)
            if fixture:
                fixture = pickle.loads(pickle.dumps(fixture))
                fixture["child_info_from_parent"]["device_id"] = cid
                sim = CamSim(fixture, who=cid, root=self.root)
                lst[pos] = fixture["child_info_from_parent"]
                self.children[cid] = sim
            return
        fixture = _find_child("smart/child", ci)
        if fixture is not None:
            fixture = pickle.loads(pickle.dumps(fixture))
            fixture["get_device_info"]["device_id"] = cid
            # keep the position etc of the list entry
            for k, v in ci.items():
                fixture["get_device_info"].setdefault(k, v)
        else:
            fixture = copy.deepcopy((self.info.get("child_devices") or {}).get(cid) or {})
            fixture.setdefault("get_device_info", ci)
            if fixture["get_device_info"] is not ci:
                for k, v in ci.items():
                    fixture["get_device_info"].setdefault(k, v)
        fixture["component_nego"] = {"component_list": comp["component_list"]}
        sim = SmartSim(fixture, who=cid, root=self.root)
        lst[pos] = fixture["get_device_info"]
        self.children[cid] = sim

    # -- execution
    def answer(self, req):
        """Answer to one request as it appears on the wire."""
        m = req["method"]
        if m == "multipleRequest":
            out = []
            for r in req["params"]["requests"]:
                a = self.one(r)
                out.append({"method": r["method"], **a})
                if a["error_code"]:
                    break
            return {"error_code": 0, "result": {"responses": out}}
        return self.one(req)

    def one(self, req):
        m, prm = req["method"], req.get("params")
        if m == "control_child":
            cid = prm["device_id"]
            if cid not in self.children:
                return {"error_code": PARAMS_ERROR}
            return {"error_code": 0, "result": {"responseData": self.children[cid].answer(prm["requestData"])}}
        self.root.log.append((self.who, m, copy.deepcopy(prm)))
        if self.root.fault is not None:
            code = self.root.fault(self.who, m, prm)
            if code:
                return {"error_code": code}
        code, res = self.execute(m, prm)
        out = {"error_code": code}
        if code == 0 and res is not None:
            out["result"] = _wire(res)
            if self.root.tag:
                self.root.tag(self.who, m, out["result"])
        return out

    def execute(self, m, prm):
        info = self.info
        if m[:3] == "get" or m == "component_nego":
            return self.get(m, prm)
        if m in ACTIONS:
            return 0, None
        fn = getattr(self, "do_" + m, None)
        if fn is not None:
            return fn(prm)
        if m in NO_GETTER:
            return 0, None
        if m[:3] == "set":
            g = "get" + m[3:]
            if self.get(g, None)[0]:
                return UNKNOWN_METHOD, None
            cur = info[g]
            self.typed(m, cur, prm or {})
            cur.update(copy.deepcopy(prm or {}))
            return 0, None
        return UNKNOWN_METHOD, None

    def typed(self, m, cur, prm):
        """Record parameters the device does not know or whose JSON type differs."""
        for k, v in prm.items():
            if k not in cur:
                self.root.unknown_keys.append((self.who, m, k))
            elif cur[k] is not None and json_type(v) != json_type(cur[k]):
                self.root.unknown_keys.append((self.who, m, k, repr(v)))

    def get(self, m, prm):
        info = self.info
        if m not in info:
            d = SMART_DEFAULTS.get(m)
            if d and self.comps.get(d[0], 0) >= d[1]:
                info[m] = copy.deepcopy(d[2])
            elif m == "get_on_off_gradually_info" and "on_off_gradually" in self.comps:
                info[m] = {"enable": True} if self.comps["on_off_gradually"] == 1 else {
                    "off_state": {"duration": 5, "enable": False, "max_duration": 60},
                    "on_state": {"duration": 5, "enable": False, "max_duration": 60}}
            else:
                return PARAMS_ERROR, None
        res = info[m]
        if isinstance(res, int):  # a recorded error
            return res, None
        if isinstance(res, dict) and "start_index" in res and "sum" in res:
            key = next((k for k, v in res.items() if isinstance(v, list)), None)
            if key is not None:
                start = (prm or {}).get("start_index") or 0
                res = dict(res)
                res["sum"] = len(res[key])
                res["start_index"] = start
                res[key] = res[key][start:start + 10]
        return 0, res

    # -- setters with their own semantics
    @property
    def sys(self):
        return self.info["get_device_info"]

    def do_set_device_info(self, prm):
        self.typed("set_device_info", self.sys, prm)
        s = self.sys
        lim = {"hue": (0, 360), "saturation": (0, 100), "brightness": (1, 100)}
        for k, (lo, hi) in lim.items():
            if k in prm and k in s and (type(prm[k]) is not int or not lo <= prm[k] <= hi):
                return PARAMS_ERROR, None
        s.update(copy.deepcopy(prm))
        if {"hue", "saturation", "color_temp"} & set(prm):  # ends a running effect
            if s.get("dynamic_light_effect_enable"):
                self.do_set_dynamic_light_effect_rule_enable({"enable": False})
            if s.get("lighting_effect"):
                s["lighting_effect"]["enable"] = 0
        return 0, None

    def do_setCleanAttr(self, prm):
        prm = dict(prm)
        if prm.pop("type", "global") != "global":
            self.root.unknown_keys.append((self.who, "setCleanAttr", "type"))
        self.typed("setCleanAttr", self.info["getCleanAttr"], prm)
        self.info["getCleanAttr"].update(prm)
        return 0, None

    def do_set_led_info(self, prm):
        self.get("get_led_info", None)
        self.info["get_led_info"].update(prm)
        self.info["get_led_info"]["led_status"] = prm["led_rule"] != "never"
        return 0, None

    def do_set_temperature_unit(self, prm):
        if prm.get("temp_unit") not in ("celsius", "fahrenheit") or "temp_unit" not in self.sys:
            return PARAMS_ERROR, None
        self.sys["temp_unit"] = prm["temp_unit"]
        return 0, None

    def do_set_child_protection(self, prm):
        self.sys["child_protection"] = prm["enable"]
        return 0, None

    def do_set_on_off_gradually_info(self, prm):
        sys = self.sys
        if "gradually_on_mode" not in sys:
            self.get("get_on_off_gradually_info", None)
        g = self.info.get("get_on_off_gradually_info")
        if self.comps.get("on_off_gradually") == 1:
            g["enable"] = prm["enable"]
            return 0, None
        done = False
        for side, mode, dur in (("on_state", "gradually_on_mode", "fade_on_time"),
                                ("off_state", "gradually_off_mode", "fade_off_time")):
            st = prm.get(side)
            if st is None:
                continue
            done = True
            if mode in sys:
                sys[mode] = 1 if st["enable"] else 0
                if "duration" in st:
                    sys[dur] = st["duration"]
            if g is not None:
                g[side].update(st)
        return (0, None) if done else (PARAMS_ERROR, None)

    def do_set_dynamic_light_effect_rule_enable(self, prm):
        rules = self.info["get_dynamic_light_effect_rules"]
        self.sys["dynamic_light_effect_enable"] = rules["enable"] = prm["enable"]
        if prm["enable"]:
            if prm.get("id") not in [r["id"] for r in rules["rule_list"]]:
                return PARAMS_ERROR, None
            self.sys["dynamic_light_effect_id"] = rules["current_rule_id"] = prm["id"]
        else:
            self.sys.pop("dynamic_light_effect_id", None)
            rules.pop("current_rule_id", None)
        return 0, None

    def do_edit_dynamic_light_effect_rule(self, prm):
        for r in self.info["get_dynamic_light_effect_rules"]["rule_list"]:
            if r["id"] == prm["id"]:
                r.update(copy.deepcopy(prm))
                return 0, None
        return PARAMS_ERROR, None

    def do_set_lighting_effect(self, prm):
        le = self.sys.setdefault("lighting_effect", {})
        if "brightness" in prm:
            le["brightness"] = prm["brightness"]
        if "enable" in prm:
            for k in ("enable", "name", "id"):
                le[k] = prm[k]
            le["custom"] = prm.get("custom", 0)
            self.info["get_lighting_effect"] = copy.deepcopy(prm)
        elif "get_lighting_effect" in self.info:
            self.info["get_lighting_effect"].update(copy.deepcopy(prm))
        return 0, None

    def do_set_preset_rules(self, prm):
        pr = self.info.get("get_preset_rules")
        if pr is not None:
            if "brightness" not in pr:
                return PARAMS_ERROR, None
            pr["brightness"] = list(prm["brightness"])
        elif "preset_state" not in self.sys:
            return PARAMS_ERROR, None
        if "preset_state" in self.sys:
            self.sys["preset_state"] = [{"brightness": b} for b in prm["brightness"]]
        return 0, None

    def do_edit_preset_rules(self, prm):
        st = self.info["get_preset_rules"].get("states")
        if st is None or not 0 <= prm["index"] < len(st):
            return PARAMS_ERROR, None
        st[prm["index"]] = copy.deepcopy(prm["state"])
        return 0, None

    def do_remove_child_device_list(self, prm):
        ids = [d["device_id"] for d in prm["child_device_list"]]
        for i in ids:
            self.remove_child(i)
        return 0, None

    # -- hub population
    LIST, COMPS = "get_child_device_list", "get_child_device_component_list"

    def remove_child(self, cid):
        lst = self.info[self.LIST]["child_device_list"]
        cl = self.info[self.COMPS]["child_component_list"]
        taken = [d for d in lst if d.get("device_id") == cid], [d for d in cl if d["device_id"] == cid]
        self.info[self.LIST]["child_device_list"] = [d for d in lst if d.get("device_id") != cid]
        self.info[self.COMPS]["child_component_list"] = [d for d in cl if d["device_id"] != cid]
        return taken, self.children.pop(cid, None)

    def add_child(self, taken, sim):
        (infos, comps), = (taken,)
        self.info[self.LIST]["child_device_list"] = self.info[self.LIST]["child_device_list"] + infos
        self.info[self.COMPS]["child_component_list"] = self.info[self.COMPS]["child_component_list"] + comps
        if sim is not None:
            self.children[sim.who] = sim


def _find_child(kind, ci):
    hw = ci["hw_ver"]
    sw = ci.get("sw_ver", ci.get("fw_ver")).split(" ")[0]
    model = ci.get("device_model", ci.get("model"))
    region = ci.get("specs", ci.get("region"))
    region = f"({region})" if region else ""
    name = f"{model}{region}_{hw}_{sw}.json"
    if name in names(kind):
        return load(kind, name)
    return None


# ---------------------------------------------------------------- SMARTCAM
CAM_DEFAULTS = {
    "getMatterSetupInfo": ("matter", {"setup_code": "00000000000", "setup_payload": "00:0000000-0000.00.000"}),
    "getSupportChildDeviceCategory": ("childQuickSetup", {"device_category_list": [
        {"category": "ipcamera"}, {"category": "subg.trv"}, {"category": "subg.trigger"},
        {"category": "subg.plugswitch"}]}),
    "getScanChildDeviceList": ("childQuickSetup", {"child_device_list": [], "scan_wait_time": 55,
                                                   "scan_status": "scanning"}),
}
CAM_SETTERS = {
    ("system", "sys", "dev_alias"): ("getDeviceInfo", "device_info", "basic_info", "device_alias"),
    ("system", "clock_status", "seconds_from_1970"): ("getClockStatus", "system", "clock_status", "seconds_from_1970"),
    ("system", "clock_status", "local_time"): ("getClockStatus", "system", "clock_status", "local_time"),
}


class CamSim(SmartSim):
    """A camera or camera hub."""

    LIST, COMPS = "getChildDeviceList", "getChildDeviceComponentList"

    def __init__(self, data, who="parent", root=None):
        self.child = who != "parent"
        super().__init__(data, who, root or None)
        acl = data.get("getAppComponentList")
        if acl:
            self.comps = {c["name"]: c["version"] for c in acl["app_component"]["app_component_list"]}

    def _load_children(self, key="getChildDeviceList", comp_key="getChildDeviceComponentList"):
        super()._load_children(key, comp_key)

    @classmethod
    def fixture(cls, name, kind="smartcam"):
        return cls(load(kind, name))

    def one(self, req):
        m = req["method"]
        if m == "controlChild":
            cc = req["params"]["childControl"]
            cid = cc["device_id"]
            if cid not in self.children:
                return {"error_code": -40210}
            return {"error_code": 0, "result": {"response_data": self.children[cid].answer(cc["request_data"])}}
        if m in ("get", "set", "do"):
            body = {k: v for k, v in req.items() if k != "method"}
            mod = next(iter(body))
            self.root.log.append((self.who, m, copy.deepcopy(body)))
            if m == "do":
                return {"error_code": 0}
            return {"error_code": -1}
        return super().one(req)

    def execute(self, m, prm):
        info = self.info
        if m in ("addScanChildDeviceList", "startScanChildDevice"):
            return 0, {}
        if m == "removeChildDeviceList":
            for d in prm["childControl"]["child_device_list"]:
                self.remove_child(d["device_id"])
            return 0, {}
        if m[:3] == "set":
            g = "g" + m[1:]
            mod = next(iter(prm))
            val = prm[mod]
            for section, sval in val.items():
                if not isinstance(sval, dict):  # e.g. the siren
                    if section not in info.get(g, {}):
                        return -1, None
                    info[g][section] = sval
                    continue
                for k, v in sval.items():
                    path = CAM_SETTERS.get((mod, section, k))
                    if path:
                        tgt = info
                        for p in path[:-1]:
                            tgt = tgt[p]
                        tgt[path[-1]] = v
                        if self.child and k == "dev_alias" and "child_info_from_parent" in info:
                            info["child_info_from_parent"]["alias"] = v
                        continue
                    tgt = info.get(g, {}).get(mod, {}).get(section)
                    if tgt is None or k not in tgt:
                        return -1, None
                    tgt[k] = v
            return 0, None
        if m in info:
            res = info[m]
            if isinstance(res, dict) and "start_index" in res and "sum" in res:
                key = next(k for k, v in res.items() if isinstance(v, list))
                start = (next(iter((prm or {"_": {}}).values())) or {}).get("start_index") or 0
                res = dict(res)
                res["sum"] = len(res[key])
                res["start_index"] = start
                res[key] = res[key][start:start + 10]
            return 0, res
        d = CAM_DEFAULTS.get(m)
        if d and d[0] in self.comps:
            info[m] = copy.deepcopy(d[1])
            return 0, info[m]
        return -1, None


# ---------------------------------------------------------------- device construction
def smart_protocol(sim):
    from kasa.protocols import SmartCamProtocol, SmartProtocol
    cls = SmartCamProtocol if isinstance(sim, CamSim) else SmartProtocol
    return cls(transport=sim.transport())


def smart_device(sim, protocol=None):
    """The library's device object talking to the simulator."""
    from kasa.smart import SmartDevice
    from kasa.smartcam import SmartCamDevice
    protocol = protocol or smart_protocol(sim)
    if isinstance(sim, CamSim):
        return SmartCamDevice("127.0.0.123", protocol=protocol)
    return SmartDevice("127.0.0.123", protocol=protocol)




def flatten(req, who="parent"):
    """The (who, method) pairs one wire request asks for."""
    m = req["method"]
    prm = req.get("params")
    if m == "multipleRequest":
        out = []
        for r in prm["requests"]:
            out += flatten(r, who)
        return out
    if m == "control_child":
        return flatten(prm["requestData"], prm["device_id"])
    if m == "controlChild":
        cc = prm["childControl"]
        return flatten(cc["request_data"], cc["device_id"])
    return [(who, m)]
