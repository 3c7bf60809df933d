"""C28: a device object describes the device it talks to."""

from __future__ import annotations

import asyncio
import base64
import copy
import datetime as _d
import json
import pickle

from mc import core
from mc.core import Violation

core.install_datetime()

from mc import iotsim  # noqa: E402
from mc import sim as _sim  # noqa: E402
from mc.checks import c17  # noqa: E402  (builders only)

BOUNDS = {
    "quick": "every recorded device and child, with and without its discovery reply; every identity field (name, addresses, location, network, signal, model, region, versions, ids) over its alphabet and every module value not shown as a feature over its alphabet, each change followed by an update, then changed back; all properties compared after every step; stream addresses of every camera for every printable character in name and password, from every source of the login",
    "thorough": "additionally every ordered pair of identity fields (value of the first, then of the second)",
}
ASSUMPTIONS = "a location the device does not report is None or 0, an unreported name is None or empty; the hardware id in hw_info of SMART devices is upstream's device id"


def b64(s):
    return base64.b64encode(s.encode()).decode()


def unb64(s):
    return base64.b64decode(s).decode()


def has_component(comps, name):
    return name in comps


# ---------------------------------------------------------------- oracles
def split_fw(full):
    v, _, b = full.partition(" ")
    return v, b or None


def smart_type(comps, family):
    """What kind of thing a first-level SMART device is."""
    order = [("HUB" in family, "Hub"),
             ("PLUG" in family and "child_device" in comps, "Strip"),
             ("PLUG" in family, "Plug"),
             ("light_strip" in comps, "LightStrip"),
             ("SWITCH" in family and "child_device" in comps, "WallSwitch"),
             ("dimmer_calibration" in comps, "Dimmer"),
             ("brightness" in comps, "Bulb"),
             ("SWITCH" in family, "WallSwitch"),
             ("SENSOR" in family, "Sensor"),
             ("ENERGY" in family, "Thermostat"),
             ("ROBOVAC" in family, "Vacuum"),
             ("TAPOCHIME" in family, "Chime")]
    return next((t for c, t in order if c), "Plug")


CHILD_TYPES = {
    "plug.powerstrip.sub-plug": "Plug", "subg.plugswitch.switch": "WallSwitch", "subg.trigger.contact-sensor": "Sensor",
    "subg.trigger.temp-hmdt-sensor": "Sensor", "subg.trigger.water-leak-sensor": "Sensor",
    "subg.trigger.motion-sensor": "Sensor", "kasa.switch.outlet.sub-fan": "Fan", "kasa.switch.outlet.sub-dimmer": "Dimmer",
    "subg.trv": "Thermostat", "subg.trigger.button": "Sensor", "camera": "Camera"}


class Any:
    """One of several acceptable answers."""

    def __init__(self, *opts):
        self.opts = opts

    def __eq__(self, other):
        return any(other == o for o in self.opts)

    def __repr__(self):
        return " or ".join(map(repr, self.opts))


def deg(v):
    return Any(None, 0.0) if v is None else v / 10_000


def want_smart(s, who, disco):
    child = who != "parent"
    i = s.info["get_device_info"]
    comps = [c["id"] for c in s.info["component_nego"]["component_list"]]
    fw, build = split_fw(i["fw_ver"])
    long, region = i["model"], i.get("specs")
    if disco and not child:
        long, _, r = disco["device_model"].partition("(")
        region = r.rstrip(")") or region
    name = unb64(i["nickname"]) if i.get("nickname") else Any(None, "")
    out = {
        "alias": name, "mac": i["mac"].replace("-", ":"), "device_id": i["device_id"], "model": i["model"],
        "rssi": i.get("rssi"), "region": region or Any(None, ""),
        "location": {"latitude": deg(i.get("latitude")), "longitude": deg(i.get("longitude"))},
        "hw_info": {"sw_ver": i["fw_ver"], "hw_ver": i["hw_ver"], "mac": i["mac"], "type": i["type"],
                    "hwId": i["device_id"], "dev_name": name, "oemId": i.get("oem_id")},
        "device_info": {"short_name": i["model"], "long_name": long, "brand": i["type"].split(".")[1][:4].lower(),
                        "device_family": i["type"], "hardware_version": i["hw_ver"], "firmware_version": fw,
                        "firmware_build": build, "requires_auth": True, "region": region or Any(None, "")},
        "has_emeter": None,
    }
    if "device_on" in i:
        out["is_on"] = bool(i["device_on"])
    if i.get("ssid"):
        out["ssid"] = unb64(i["ssid"])
    if not child:
        out["device_type"] = smart_type(comps, i["type"])
        out["has_emeter"] = "energy_monitoring" in comps and "device_on" in i
    elif i.get("category") in CHILD_TYPES:
        out["device_type"] = CHILD_TYPES[i["category"]]
    return out


def want_cam(s, who, disco):
    if who != "parent":
        i = s.info["child_info_from_parent"]
        d = dict(name=i["alias"], model=i["device_model"], fw=i["sw_ver"], hw=i["hw_ver"], id=i["device_id"],
                 hwid=i.get("hw_id"))
        rssi = ...
    else:
        i = s.info["getDeviceInfo"]["device_info"]["basic_info"]
        d = dict(name=i["device_alias"], model=i["device_model"], fw=i["sw_version"], hw=i["hw_version"],
                 id=i["dev_id"], hwid=i.get("hw_id"))
        ct = s.info.get("getConnectionType")
        rssi = ct.get("rssiValue") if isinstance(ct, dict) else None
    fw, build = split_fw(d["fw"])
    t = i["device_type"]
    out = {
        "alias": d["name"], "mac": i["mac"].replace("-", ":"), "device_id": d["id"], "model": d["model"],
        "region": i.get("region"),
        "location": {"latitude": deg(i.get("latitude")), "longitude": deg(i.get("longitude"))},
        "hw_info": {"sw_ver": d["fw"], "hw_ver": d["hw"], "mac": i["mac"], "hwId": d["hwid"],
                    "dev_name": d["name"], "oemId": i.get("oem_id")},
        "device_info": {"short_name": d["model"],
                        "long_name": disco["device_model"] if disco and who == "parent" else d["model"], "brand": "tapo",
                        "device_family": t, "hardware_version": d["hw"], "firmware_version": fw, "firmware_build": build,
                        "requires_auth": True, "region": i.get("region")},
        "device_type": "Hub" if t.endswith("HUB") else "Doorbell" if "DOORBELL" in t else "Camera",
        "has_emeter": False,
    }
    if rssi is not ...:
        out["rssi"] = rssi
    lens = s.info.get("getLensMaskConfig")
    if isinstance(lens, dict):
        out["is_on"] = lens["lens_mask"]["lens_mask_info"]["enabled"] == "off"
    return out


def iot_type(i):
    t = (i.get("type") or i.get("mic_type")).lower()
    name = i.get("dev_name") or ""
    if "Dimmer" in name:
        return "Dimmer"
    if "smartplug" in t:
        return "Strip" if "children" in i else "WallSwitch" if "light" in name.lower() else "Plug"
    return "LightStrip" if "length" in i else "Bulb"


def want_iot(s, who, disco):
    s.sysinfo()
    i = s.sys
    raw = i.get("mac") or i.get("mic_mac")
    mac = raw.replace("-", ":")
    if ":" not in mac:
        mac = ":".join(mac[n:n + 2] for n in range(0, 12, 2)).lower()
    short, _, region = i["model"].partition("(")
    region = region.rstrip(")") or Any(None, "")
    fw, build = split_fw(i["sw_ver"])
    if "latitude" in i:
        loc = {"latitude": i["latitude"], "longitude": i["longitude"]}
    elif "latitude_i" in i:
        loc = {"latitude": i["latitude_i"] / 10_000, "longitude": i["longitude_i"] / 10_000}
    else:
        loc = {"latitude": None, "longitude": None}
    keys = ("sw_ver", "hw_ver", "mac", "mic_mac", "type", "mic_type", "hwId", "fwId", "oemId", "dev_name")
    out = {"mac": mac, "device_id": mac, "model": short, "rssi": i["rssi"], "location": loc, "region": region,
           "hw_info": {k: i[k] for k in keys if k in i},
           "has_emeter": "ENE" in (i.get("feature") or "") or s.is_bulb}
    if who is None:
        on = s.light["on_off"] if s.is_bulb else (
            any(c["state"] for c in i["children"]) if s.is_strip else i["relay_state"])
        out |= {"alias": i["alias"], "device_type": iot_type(i), "is_on": bool(on),
                "device_info": {"short_name": short, "long_name": short, "brand": "kasa",
                                "device_family": i.get("type") or i.get("mic_type"), "hardware_version": i["hw_ver"],
                                "firmware_version": fw, "firmware_build": build,
                                "requires_auth": bool(disco and "mgt_encrypt_schm" in disco), "region": region}}
    else:
        c = s.socket(who)
        out |= {"alias": c["alias"], "device_id": f"{mac}_{who}", "device_type": "StripSocket", "is_on": bool(c["state"]),
                "next_action": c["next_action"]}
        out["model"] = f"Socket for {i['model']}"
        out["device_info"] = {"short_name": short, "firmware_version": fw, "firmware_build": build,
                              "hardware_version": i["hw_ver"], "region": region}
    return out


def got_of(d, names):
    out = {}
    for n in names:
        try:
            v = getattr(d, n)
        except Exception as ex:  # noqa: BLE001
            raise Violation(f"{n} of {d.model} cannot be read: {ex!r}", f"read {n}") from None
        if n == "device_type":
            v = v.name
        if n == "device_info":
            v = {k: x for k, x in vars(v).items() if k != "device_type"}
        out[n] = v
    return out


def same(want, got):
    if isinstance(want, dict) and isinstance(got, dict):
        return all(k in got and same(v, got[k]) for k, v in want.items())
    return want == got


# ---------------------------------------------------------------- fields and their alphabets
NAMES = ["x", "Küche 💡", "a" * 63, "0"]
MACS = ["00-11-22-AA-BB-CC", "00:11:22:AA:BB:CC"]
FW = ["1.0.0", "2.11.3 Build 20250101 Rel.1", "1.0 b"]


def flat(*keys):
    def get(root):
        for k in keys:
            root = root[k]
        return root
    return get


def fields(kind, s, who):
    """(container, key, values) of everything the device reports about itself."""
    out = []

    def add(c, key, vals):
        if key in c:
            out.append((c, key, vals))

    if kind == "iot":
        i = s.sys if who is None else s.socket(who)
        add(i, "alias", NAMES)
        if who is not None:
            add(i, "state", [0, 1, 0])
            add(i, "next_action", [{"type": -1}, {"type": 1, "schd_sec": 7, "action": 1}])
            return out
        add(i, "mac", [*MACS, "001122AABBCC"])
        add(i, "mic_mac", ["001122AABBCC", *MACS])
        for k in ("latitude", "longitude"):
            add(i, k, [0, -12.25, 90.5])
            add(i, k + "_i", [0, -122500, 905001])
        add(i, "rssi", [-1, -99])
        add(i, "sw_ver", FW)
        add(i, "hw_ver", ["9.0"])
        add(i, "model", ["XY100(UK)", "XY100"])
        for k in ("hwId", "fwId", "oemId"):
            add(i, k, ["F" * 16])
        if not s.is_strip and not s.is_bulb:
            add(i, "relay_state", [0, 1, 0])
        if s.is_bulb:
            add(s.light, "on_off", [0, 1, 0])
        return out
    if isinstance(s, _sim.CamSim):
        if who == "parent":
            i = s.info["getDeviceInfo"]["device_info"]["basic_info"]
            names = dict(alias="device_alias", fw="sw_version", hw="hw_version", model="device_model")
        else:
            i = s.info["child_info_from_parent"]
            names = dict(alias="alias", fw="sw_ver", hw="hw_ver", model="device_model")
        add(i, names["alias"], NAMES)
        add(i, names["fw"], FW)
        add(i, names["hw"], ["9.0"])
        add(i, names["model"], ["XY100"])
        add(i, "mac", MACS)
        add(i, "hw_id", ["F" * 16])
        add(i, "oem_id", ["F" * 16])
        add(i, "region", ["XX"])
        add(i, "latitude", [0, -122500, 905001])
        add(i, "longitude", [0, -122500, 905001])
        ct = s.info.get("getConnectionType")
        if isinstance(ct, dict):
            add(ct, "rssiValue", [-1, -99])
        lens = s.info.get("getLensMaskConfig")
        if isinstance(lens, dict):
            add(lens["lens_mask"]["lens_mask_info"], "enabled", ["on", "off", "on"])
        return out
    i = s.info["get_device_info"]
    add(i, "nickname", [b64(n) for n in NAMES] + [""])
    add(i, "mac", MACS)
    add(i, "ssid", [b64("net"), b64("nët 5G")])
    add(i, "rssi", [-1, -99])
    add(i, "latitude", [0, -122500, 905001])
    add(i, "longitude", [0, -122500, 905001])
    add(i, "fw_ver", FW)
    add(i, "hw_ver", ["9.0"])
    add(i, "oem_id", ["F" * 16])
    add(i, "specs", ["XX", ""])
    add(i, "model", ["XY100"])
    add(i, "device_on", [True, False, True])
    return out


# ---------------------------------------------------------------- module values that are no features
I = "get_device_info"
ALL = ...


def record(r):
    return (_d.timedelta(minutes=r["clean_time"]), r["clean_area"], r["dust_collection"], r["timestamp"])


def cleaned(m):
    return [(r.clean_time, r.clean_area, r.dust_collection, int(r.timestamp.timestamp())) for r in m.parsed_data.records]


LOGS = [{"id": 9, "eventId": "e9", "timestamp": 1736797545, "event": "open"},
        {"id": 8, "eventId": "e8", "timestamp": 1736797500, "event": "close"}]
RECS = [{"clean_area": 7, "clean_time": 5, "dust_collection": True, "error": 2, "info_num": 0, "map_id": 1, "message": 0,
         "record_index": 0, "start_type": 4, "task_type": 0, "timestamp": 1737387294},
        {"clean_area": 0, "clean_time": 0, "dust_collection": False, "error": 0, "info_num": 0, "map_id": 1, "message": 0,
         "record_index": 1, "start_type": 4, "task_type": 0, "timestamp": 1737390000}]

# module, how it is read, where the device keeps it, values, what is expected
MODS = [
    ("AutoOff", lambda m: m.is_timer_active, (I, "auto_off_status"), ["on", "off"], lambda v: v == "on"),
    ("TemperatureControl", lambda m: m.minimum_target_temperature, (I, "min_control_temp"), [4, 6], lambda v: v),
    ("TemperatureControl", lambda m: m.maximum_target_temperature, (I, "max_control_temp"), [29, 31], lambda v: v),
    ("TemperatureControl", lambda m: m.allowed_temperature_range[1], (I, "max_control_temp"), [29, 31], lambda v: v),
    ("TemperatureControl", lambda m: m.allowed_temperature_range[0], (I, "min_control_temp"), [4, 6], lambda v: v),
    ("TemperatureControl", lambda m: m.states, (I, "trv_states"), [[], ["heating"], ["idle", "low_battery"]], lambda v: set(v)),
    ("TemperatureControl", lambda m: m.state, (I, "frost_protection_on"), [True, False], lambda v: not v),
    ("Thermostat", lambda m: m.state, (I, "frost_protection_on"), [True, False], lambda v: not v),
    ("Thermostat", lambda m: m.mode.name, (I, "trv_states"), [["heating"], ["progress_calibration"], ["idle"], [], ["?"]],
     lambda v: {"heating": "Heating", "progress_calibration": "Calibrating", "idle": "Idle", "?": "Unknown"}[v[0]] if v else "Idle"),
    ("Thermostat", lambda m: m.target_temperature, (I, "target_temp"), [5, 20.5], lambda v: v),
    ("Thermostat", lambda m: m.temperature, (I, "current_temp"), [-3, 20.5], lambda v: v),
    ("Thermostat", lambda m: m.temperature_unit, (I, "temp_unit"), ["celsius", "fahrenheit"], lambda v: v),
    ("FrostProtection", lambda m: m.enabled, (I, "frost_protection_on"), [True, False], lambda v: v),
    ("PowerProtection", lambda m: m.enabled, ("get_protection_power", "enabled"), [True, False], lambda v: v),
    ("PowerProtection", lambda m: m.protection_threshold, ("get_protection_power", "protection_power"), [0, 7], lambda v: v),
    ("Led", lambda m: (m.mode, m.led), ("get_led_info", "led_rule"), ["always", "never", "night_mode"],
     lambda v: (v, v != "never")),
    ("Led", lambda m: m.night_mode_settings["start"], ("get_led_info", "night_mode", "start_time"), [0, 1200], lambda v: v),
    ("Led", lambda m: m.night_mode_settings["end"], ("get_led_info", "night_mode", "end_time"), [0, 400], lambda v: v),
    ("Led", lambda m: m.night_mode_settings["type"], ("get_led_info", "night_mode", "night_mode_type"),
     ["custom", "sunrise_sunset"], lambda v: v),
    ("Led", lambda m: m.night_mode_settings["sunrise_offset"], ("get_led_info", "night_mode", "sunrise_offset"),
     [0, -30], lambda v: v),
    ("Led", lambda m: m.night_mode_settings["sunset_offset"], ("get_led_info", "night_mode", "sunset_offset"),
     [0, 30], lambda v: v),
    ("HomeKit", lambda m: m.info["mfi_setup_code"], ("get_homekit_info", "mfi_setup_code"), ["1", "2"], lambda v: v),
    ("HomeKit", lambda m: m.info["mfi_setup_id"], ("get_homekit_info", "mfi_setup_id"), ["1", "2"], lambda v: v),
    ("Matter", lambda m: m.info["setup_code"], ("get_matter_setup_info", "setup_code"), ["1", "2"], lambda v: v),
    ("Matter", lambda m: m.info["setup_payload"], ("get_matter_setup_info", "setup_payload"), ["1", "2"], lambda v: v),
    ("TriggerLogs", lambda m: [(x.id, x.event_id, x.timestamp, x.event) for x in m.logs], ("get_trigger_logs", "logs"),
     [[], LOGS, LOGS[1:]], lambda v: [(x["id"], x["eventId"], x["timestamp"], x["event"]) for x in v]),
    ("ChildSetup", lambda m: m.supported_categories, ("get_support_child_device_category", "device_category_list"),
     [[{"category": "subg.trv"}, {"category": "subg.x"}], [{"category": "subg.trv"}]], lambda v: [x["category"] for x in v]),
    ("ChildSetup", lambda m: m.supported_categories, ("getSupportChildDeviceCategory", "device_category_list"),
     [[{"category": "ipcamera"}, {"category": "subg.trv"}], [{"category": "subg.trv"}]],
     lambda v: [{"ipcamera": "camera"}.get(x["category"], x["category"]) for x in v]),
    ("CleanRecords", cleaned, ("getCleanRecords", "record_list"), [[], RECS, RECS[1:]], lambda v: [record(r) for r in v]),
    ("CleanRecords", lambda m: [r.error for r in m.parsed_data.records], ("getCleanRecords", "record_list"), [RECS, RECS[1:]],
     lambda v: [r["error"] for r in v]),
    ("CleanRecords", lambda m: m.parsed_data.total_count, ("getCleanRecords", "total_number"), [0, 61], lambda v: v),
    ("CleanRecords", lambda m: (m.parsed_data.last_clean.clean_area, m.parsed_data.last_clean.dust_collection),
     ("getCleanRecords", "lastest_day_record"), [[1736797545, 25, 17, 1], [1736797545, 61, 0, 0]], lambda v: (v[2], bool(v[3]))),
    ("CleanRecords", lambda m: m.area_unit.name, ("getAreaUnit", "area_unit"), [0, 1, 2],
     lambda v: ["Sqm", "Sqft", "Ping"][v]),
    ("Clean", lambda m: m.area_unit.name, ("getAreaUnit", "area_unit"), [0, 1, 2], lambda v: ["Sqm", "Sqft", "Ping"][v]),
    ("CleanRecords", lambda m: (m.last_clean_timestamp, m.last_clean_timestamp.utcoffset() == m.last_clean_timestamp.astimezone(m.device.timezone).utcoffset()),
     ("getCleanRecords", "lastest_day_record"), [[1736797545, 25, 17, 1], [1720000000, 61, 0, 0]],
     lambda v: (_d.datetime.fromtimestamp(v[0], _d.UTC), True)),
    ("CleanRecords", lambda m: [r.timestamp.utcoffset() == r.timestamp.astimezone(m.device.timezone).utcoffset() for r in m.parsed_data.records],
     ("getCleanRecords", "record_list"), [RECS], lambda v: [True] * len(v)),
    ("Clean", lambda m: (m.error.name, m.status.name == "Error"), ("getVacStatus", "err_status"),
     [[2], [], [14], [0], [99999], [], [22, 3]], lambda v: ({2: "SideBrushStuck", 14: "DustBinRemoved", 0: "Ok", 22: "BatteryLow"}.get((v or [0])[0], "UnknownInternal"), (v or [0])[0] != 0)),
    ("TemperatureControl", lambda m: m.mode.name, (I, "trv_states"), [["heating", "low_battery"], ["low_battery"], [], ["progress_calibration", "low_battery"]],
     lambda v: {"heating": "Heating", "progress_calibration": "Calibrating"}.get((v or [""])[0], "Idle")),
    ("ColorTemperature", lambda m: tuple(m.valid_temperature_range), (I, "color_temp_range"), [[2600, 6000], [1800, 9000]],
     lambda v: tuple(v)),
    ("Firmware", lambda m: m.auto_update_enabled, ("get_auto_update_info", "enable"), [True, False], lambda v: v),
    ("Firmware", lambda m: m.current_firmware, (I, "fw_ver"), ["7.7.7 Build 1"], lambda v: v),
    ("Cloud", lambda m: m.is_connected, ("get_connect_cloud_state", "status"), [0, 1, 2], lambda v: v == 0),
    ("Alarm", lambda m: m.alarm_sounds, ("get_support_alarm_type_list", "alarm_type_list"), [["a", "b"], ["c"]], lambda v: v),
    ("Alarm", lambda m: m.alarm_sounds, ("getSirenTypeList", "siren_type_list"), [["a", "b"], ["c"]], lambda v: v),
    ("LensMask", lambda m: m.enabled, ("getLensMaskConfig", "lens_mask", "lens_mask_info", "enabled"), ["on", "off"],
     lambda v: v == "on"),
]
DAILY = 86_500


def night_keys(s):
    nm = s.info.get("get_led_info", {}) if isinstance(s.info.get("get_led_info"), dict) else {}
    return nm.get("night_mode", {}) if isinstance(nm, dict) else {}


def iot_mods(s, d):
    """(what, read, container, key, values, expected)"""
    out = [("cloud", lambda m: m.info.username, s.cloud, "username", ["a@b.c", ""], lambda v: v),
           ("cloud", lambda m: m.info.server, s.cloud, "server", ["srv"], lambda v: v),
           ("cloud", lambda m: (m.info.cloud_connected, m.is_connected), s.cloud, "cld_connection", [0, 1, 0],
            lambda v: (v, bool(v))),
           ("cloud", lambda m: m.info.provisioned, s.cloud, "binded", [0, 1, 0], lambda v: v),
           ("Led", lambda m: (m.led, m.mode), s.sys, "led_off", [0, 1, 0], lambda v: (not v, "never" if v else "always"))]
    if s.las:
        c = s.las["devs"][0]
        out += [("ambient", lambda m: m.presets, c, "level_array",
                 [[{"name": "cloudy", "adc": 1, "value": 2}], []], lambda v: v),
                ("ambient", lambda m: m.enabled, c, "enable", [0, 1, 0], bool)]
    if s.pir:
        out += [("motion", lambda m: m.inactivity_timeout, s.pir, "cold_time", [0, 61_000], lambda v: v),
                ("motion", lambda m: m.ranges, s.pir, "cold_time", [1], lambda v: ["Far", "Mid", "Near", "Custom"]),
                ("motion", lambda m: m.enabled, s.pir, "enable", [0, 1, 0], bool)]
    return out


# ---------------------------------------------------------------- runs
def discovery_of(kind, fix):
    if kind == "smart/child":
        return None
    d = _sim.load(kind, fix).get("discovery_result")
    if not d:
        return None
    return d.get("result", d)


WANT = {"iot": want_iot}


class Run:
    def __init__(self, ctx, p):
        self.ctx, self.p, self.kind = ctx, p, p["kind"]
        self.sim, self.dev = c17.build(p["kind"], p["fix"])
        self.disco = discovery_of(p["kind"], p["fix"]) if p["disco"] else None
        if self.disco:
            self.dev.update_from_discover_info(copy.deepcopy(self.disco))

    def sims(self):
        for d in [self.dev, *self.dev.children]:
            who = c17.who_of(self.kind, self.dev, d)
            if self.kind == "iot":
                yield d, who, self.sim
            else:
                s = self.sim if who == "parent" else self.sim.children.get(who)
                if s is not None:
                    yield d, who, s

    def judge(self, what):
        for d, who, s in self.sims():
            fn = want_iot if self.kind == "iot" else want_cam if isinstance(s, _sim.CamSim) else want_smart
            want = fn(s, who, self.disco)
            if want.get("has_emeter") is None:
                want.pop("has_emeter", None)
            got = got_of(d, want)
            for k, v in want.items():
                if not same(v, got[k]):
                    raise Violation(f"{what}: {k} of {who or 'the device'} is {got[k]!r}, it reports {v!r}", f"describes {k}")
            if "alias" in want and not isinstance(want["alias"], Any):
                if d.alias not in repr(d) or d.model not in repr(d):
                    raise Violation(f"{what}: repr is {d!r}", "repr")
            if who not in (None, "parent"):
                if self.dev.get_child_device(d.device_id) is not d:
                    raise Violation(f"{what}: child {who} is not found by its id", "child lookup")
                names = [x.alias for x in self.dev.children if x.alias]
                if d.alias and [n.lower() for n in names].count(d.alias.lower()) == 1:
                    for n in (d.alias, d.alias.lower(), d.alias.upper()):
                        if n.lower() == d.alias.lower() and self.dev.get_child_device(n) is not d:
                            raise Violation(f"{what}: child {who} is not found by its name {n!r}", "child lookup")
                    if self.dev.get_plug_by_name(d.alias) is not d:
                        raise Violation(f"{what}: {d.alias!r} names another socket", "child lookup")
        kids = self.dev.children
        for n, d in enumerate(kids):
            if self.dev.get_plug_by_index(n) is not d:
                raise Violation(f"{what}: socket {n} is another device", "child lookup")
        self.ctx.note("described", what)

    async def settle(self, t=5):
        await asyncio.sleep(t)
        await self.dev.update()


def identity(ctx, p):
    async def main(loop):
        r = Run(ctx, p)
        await r.dev.update()
        r.judge("first update")
        await r.settle()
        r.judge("second update")
        todo, seen = [], set()
        for d, who, s in r.sims():
            for c, k, vals in fields(r.kind, s, who):
                key = (k, type(d).__name__, who in (None, "parent"))
                if key in seen and p["tier"] != "thorough":
                    continue
                seen.add(key)
                todo.append((who, c, k, vals))
        if p["name"] == "pairs":
            todo = [t for t in todo if t[0] in (None, "parent")] or todo
            a = ctx.pick(list(range(len(todo))), "field")
            todo = [todo[a]] + [x for t in todo[:a] + todo[a + 1:] for x in (t, todo[a])]
        for who, c, k, vals in todo:
            old = c[k]
            for v in vals:
                c[k] = copy.deepcopy(v)
                if r.kind == "iot" and r.sim.is_strip and k == "mac":  # sockets are known by it: another strip
                    r.dev = iotsim.iot_device(r.sim)
                    if r.disco:
                        r.dev.update_from_discover_info(copy.deepcopy(r.disco))
                await r.settle(DAILY if k == "enabled" else 5)
                r.judge(f"{who or 'the device'} reports {k}={v!r}")
            if r.kind == "iot" and r.sim.is_strip and k == "mac":
                c[k] = old
                r.dev = iotsim.iot_device(r.sim)
                await r.dev.update()
            if p["name"] != "pairs":
                c[k] = old
                await r.settle(DAILY if k == "enabled" else 5)
                r.judge(f"{who or 'the device'} reports {k}={old!r} again")
        ctx.obs.append((p["name"], len(todo)))
    core.run_loop(ctx, main)


def modules(ctx, p):
    async def main(loop):
        r = Run(ctx, p)
        await r.dev.update()
        n, seen = 0, set()
        for d, who, s in r.sims():
            mods = {str(k): m for k, m in d.modules.items()}
            if r.kind == "iot":
                todo = [(name, rd, c, k, vals, exp) for name, rd, c, k, vals, exp in iot_mods(r.sim, d)
                        if name in mods and k in c and who is None]
            else:
                todo = []
                for row, (name, rd, path, vals, exp) in enumerate(MODS):
                    if name not in mods or (row, d.model, type(d).__name__) in seen:
                        continue
                    if path[0] == "get_auto_update_info" and s.comps.get("firmware", 0) < 2:
                        continue
                    c = s.info
                    for k in path[:-1]:
                        c = c.get(k) if isinstance(c, dict) else None
                    if not isinstance(c, dict):
                        continue
                    if path[-1] not in c and not path[-1].endswith("_offset"):
                        continue
                    if path[-1] == "trv_states" and s.info[I].get("frost_protection_on"):
                        s.info[I]["frost_protection_on"] = False
                    seen.add((row, d.model, type(d).__name__))
                    todo.append((name, rd, c, path[-1], vals, exp))
            for name, rd, c, k, vals, exp in todo:
                missing = k not in c
                old = c.get(k)
                for v in [*vals] + ([] if missing else [old]):
                    c[k] = copy.deepcopy(v)
                    await r.settle(DAILY)
                    try:
                        got = rd(mods[name])
                    except Exception as ex:  # noqa: BLE001
                        raise Violation(f"{name} of {d.model} cannot be read while the device reports {k}={v!r}: {ex!r}",
                                        f"read {name} {k}") from None
                    want = exp(v)
                    if got != want:
                        raise Violation(f"{name} of {d.model} shows {got!r} while the device reports {k}={v!r}", f"shows {name} {k}")
                    ctx.note("module", name, k, repr(v))
                    n += 1
                if missing:
                    c.pop(k)
        ctx.obs.append(("modules", n))
    core.run_loop(ctx, main)


LETTERS = [chr(n) for n in range(0x20, 0x7F)] + ["ä", "€", "🔒", "%2F", "%25", "+%20"]


def streams(ctx, p):
    """The addresses of the video streams carry the login exactly."""
    from urllib.parse import unquote, urlsplit

    from kasa import Credentials, Module
    from kasa.smartcam.modules.camera import StreamResolution

    async def main(loop):
        s, dev = c17.build(p["kind"], p["fix"])
        await dev.update()
        n = 0
        for d in [dev, *dev.children]:
            cam = d.modules.get(Module.Camera)
            if cam is None:
                continue
            child = d is not dev
            onvif = cam.onvif_url()
            if onvif != (None if child else "http://127.0.0.123:2020/onvif/device_service"):
                raise Violation(f"{d.model}: onvif address {onvif}", "onvif address")
            keep = d.config.credentials, d.config.credentials_hash
            for user, word in [(f"u{a}ser", "pass") for a in LETTERS] + [("user", f"{a}pa{a}ss") for a in LETTERS] + [("", "x"), ("x", ""), ("", "")]:
                for source in ("given", "login", "hash", "given over login"):
                    for res, path in ((StreamResolution.HD, "/stream1"), (StreamResolution.SD, "/stream2")):
                        d.config.credentials = d.config.credentials_hash = None
                        arg = None
                        if source.startswith("given"):
                            arg = Credentials(user, word)
                        if source == "login":
                            d.config.credentials = Credentials(user, word)
                        if source == "given over login":
                            d.config.credentials = Credentials("other", "login")
                        if source == "hash":
                            d.config.credentials_hash = base64.b64encode(json.dumps({"un": user, "pwd": word}).encode()).decode()
                        url = cam.stream_rtsp_url(arg, stream_resolution=res)
                        what = f"{d.model}: stream address for {user!r}, {word!r} ({source}) is {url}"
                        n += 1
                        if not (user and word) and source == "given over login" and not (user or word):
                            continue
                        if child or not (user and word):
                            if url is not None:
                                raise Violation(what, "stream address without login" if not child else "stream address of a child")
                            continue
                        u = urlsplit(url or "")
                        got = (u.scheme, unquote(u.username or ""), unquote(u.password or ""), u.hostname, u.port, u.path, u.query, u.fragment)
                        if got != ("rtsp", user, word, "127.0.0.123", 554, path, "", ""):
                            raise Violation(f"{what}: leads to {got}", "stream address")
            d.config.credentials, d.config.credentials_hash = keep
        ctx.obs.append(("streams", n))
    core.run_loop(ctx, main)


def scenarios(tier):
    out = []
    for kind, fix in c17.kinds():
        base = dict(kind=kind, fix=fix, tier=tier, budget=0)
        for disco in ([0, 1] if discovery_of(kind, fix) else [0]):
            out.append(dict(name="identity", disco=disco, **base))
            if tier == "thorough":
                out.append(dict(name="pairs", disco=disco, **base))
        out.append(dict(name="modules", disco=0, **base))
        if kind == "smartcam":
            out.append(dict(name="streams", disco=0, **base))
    return out


def run(ctx, p):
    dict(modules=modules, streams=streams).get(p["name"], identity)(ctx, p)
