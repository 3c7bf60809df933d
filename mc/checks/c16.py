"""C16: secrets and personal identifiers never reach debug logs."""

from __future__ import annotations

import asyncio
import base64
import copy
import hashlib
import json
import logging
import os
import re

from mc import core, net, sess
from mc.core import Violation

core.install_datetime()

from mc import iotsim, sim  # noqa: E402
from mc.fake import make_transport  # noqa: E402

NEEDS_LOGGING = True
BOUNDS = {
    "quick": "every recorded device of every family with a canary in every sensitive field: first update, later update, every single query, child wrappers, naming, wifi and pairing commands, each with at most one failing exchange (error code on a method or on the whole exchange, malformed reply, lost); every transport with wrong and right credentials, sessions lost and every stage's error codes; every discovery reply kind incl. unreadable, unsupported and undecryptable ones",
    "thorough": "two failing exchanges on a device of each family",
}
ASSUMPTIONS = ["a canary is logged when the part of it that identifies the device or person appears, in plain, base64 or hashed (password) form",
               "the library's descriptions of its own device objects name the device by its alias, as they do for the user"]

MARK = "5EC2E7"
ID_KEYS = {"deviceId", "device_id", "dev_id", "parent_device_id", "original_device_id", "oemId", "oem_id", "hwId", "hw_id", "fw_id",
           "ext_addr", "owner", "master_device_id", "group_id", "mfi_token_uuid", "mfi_token_token"}
MAC_KEYS = {"mac", "mic_mac", "bssid"}
NAME_KEYS = {"alias", "device_alias", "connect_ssid", "location", "username"}
NAME64_KEYS = {"nickname"}
LOC_KEYS = {"latitude", "longitude", "latitude_i", "longitude_i", "la", "lo"}
CODE_KEYS = {"setup_code", "setup_payload", "mfi_setup_code", "mfi_setup_id"}
SENS = ID_KEYS | MAC_KEYS | NAME_KEYS | NAME64_KEYS | LOC_KEYS | CODE_KEYS | {"ssid", "group_name", "map_name"}
# masked although harmless
ALSO = {"channel", "cd", "map_data", "board_sn", "custom_sn", "area_list", "device_name", "ip", "local_ip", "children", "encrypt_info", "key", "password",
        "child_device_list", "key_type"}
PW = MARK + "pw-Zq9"
USER = "who@example.com"
WIFIPW = MARK + "wifi-pw1"


def b64(s):
    return base64.b64encode(s.encode()).decode()


def hashes(s):
    out = []
    for h in ("md5", "sha1", "sha256"):
        x = hashlib.new(h, s.encode()).hexdigest()
        out += [x, b64(x), b64(x.upper()), b64(x)[:20]]
    return out


PATTERN = re.compile("|".join(
    [MARK, b64(MARK)[:8], "N" + "UVDMkU3", r"51\.?72677", r"(?<![a-z0-9+/])(?:TOK\d+h|stok\d+h|VT\d+h|SID-\d+-h)", "02[:-]?CA[:-]?FE[:-]?(?!00[:-]?00[:-]?00)[0-9A-F]{2}"]
    + [re.escape(x) for x in hashes(PW)]), re.I)


class Canary:
    def __init__(self, family):
        self.n = 0
        self.ids = {}
        self.family = family

    def num(self):
        self.n += 1
        return self.n

    def one(self, k, v):
        if v is None or v == "":
            return v
        if k in LOC_KEYS:
            return 5172677 if isinstance(v, int) else 51.72677
        if not isinstance(v, str):
            return v
        if k in MAC_KEYS:
            n = self.num()
            sep = ":" if ":" in v else "-" if "-" in v else ""
            return sep.join(("02", "CA", "FE", "BA", "%02X" % (n // 256), "%02X" % (n % 256)))
        if k in ID_KEYS:
            if v not in self.ids or set(v) <= set("0-"):
                self.ids[v] = f"{MARK}{self.num():03d}" + "A0B1C2D3E4F5" * 5
                self.ids[v] = self.ids[v][:max(len(v), 12)]
            return self.ids[v]
        if k in NAME64_KEYS or (k in ("ssid", "group_name", "map_name") and self.family != "iot"):
            return b64(f"{MARK} nm{self.num():03d}")
        if k in CODE_KEYS:
            return f"{MARK}{self.num():03d}"
        if k in NAME_KEYS or k in ("ssid", "group_name"):
            return f"{MARK} name{self.num():03d}"
        return v

    def walk(self, x, parent=None):
        if isinstance(x, dict):
            return {k: (self.one(k, v) if k in SENS else self.walk(v, k)) for k, v in x.items()}
        if isinstance(x, list):
            return [self.walk(v, parent) for v in x]
        return x


def canarize(data, family):
    c = Canary(family)
    out = c.walk(data)
    if family == "iot":
        kids = out.get("system", {}).get("get_sysinfo", {}).get("children")
        for i, k in enumerate(kids or []):
            k["id"] = f"{MARK}9{i:02d}" + "F" * 31
    else:
        # ids used as keys
        for k in list(out.get("child_devices", {}) or {}):
            if k in c.ids:
                out["child_devices"][c.ids[k]] = out["child_devices"].pop(k)
    return out


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.lines = []
        self.fmt = logging.Formatter("%(message)s")

    def emit(self, rec):
        try:
            self.lines.append((rec.name, rec.levelname, rec.msg if isinstance(rec.msg, str) else str(rec.msg), self.fmt.format(rec)))
        except Exception as ex:  # noqa: BLE001
            self.lines.append((rec.name, rec.levelname, str(rec.msg), f"unformattable {ex!r}"))


class Logs:
    """Capture everything the library logs."""

    def __init__(self, on=True):
        self.on = on
        self.cap = Capture()

    def __enter__(self):
        lg = logging.getLogger("kasa")
        self.old = lg.level, lg.propagate
        lg.setLevel(logging.DEBUG if self.on else logging.CRITICAL)
        lg.propagate = False
        lg.addHandler(self.cap)
        return self.cap

    def __exit__(self, *a):
        lg = logging.getLogger("kasa")
        lg.removeHandler(self.cap)
        lg.level, lg.propagate = self.old
        lg.setLevel(self.old[0])


COLLECT = {}


def scan(cap, where, own=()):
    for name, level, msg, text in cap.lines:
        text = re.sub(r"<DeviceType\.[^>]*>", "<device>", text)
        for s in own:
            text = text.replace(s, "<own>")
        m = PATTERN.search(text)
        if m:
            if os.environ.get("C16_COLLECT"):
                k = (name, msg[:60])
                if k not in COLLECT:
                    COLLECT[k] = 1
                    with open(os.environ["C16_COLLECT"], "a") as f:
                        f.write(f"{name} | {msg[:60]!r} | {where} | ...{text[max(0, m.start() - 60):m.end() + 60]!r}\n")
                continue
            raise Violation(f"{where}: {name} logs ({level}) ...{text[max(0, m.start() - 80):m.end() + 40]}", f"{name}: {msg[:60]}")


def readable(cap, wire, where):
    """What the device said and identifies nobody must be found in the log."""
    text = " ".join(t for *_, t in cap.lines)
    text = re.sub(r"'\s*\n\s*'", "", text)

    def walk(x, k=None):
        if isinstance(x, dict):
            for kk, v in x.items():
                if kk in SENS or kk in ALSO:
                    continue
                walk(v, kk)
        elif isinstance(x, list):
            for v in x:
                walk(v, k)
        elif isinstance(x, str) and 0 < len(x) < 40 and " " not in x and "'" not in x and "\\" not in x and '"' not in x and x.isascii():
            if x not in text:
                raise Violation(f"{where}: {k} = {x!r} is not in the log", f"unreadable {k}")
    for w in wire:
        walk(w)


# ---------------------------------------------------------------- devices
def pool():
    out = [("iot", n) for n in sim.names("iot")] + [("smart", n) for n in sim.names("smart")] + [("smartcam", n) for n in sim.names("smartcam")]
    return out


DEEP = [("iot", "HS300(US)_1.0_1.0.10.json"), ("iot", "HS110(EU)_4.0_1.0.4.json"), ("iot", "KL130(EU)_1.0_1.8.8.json"),
        ("smart", "P300(EU)_1.0_1.0.15.json"), ("smart", "H100(EU)_1.0_1.5.10.json"), ("smart", "L530E(EU)_3.0_1.1.6.json"),
        ("smartcam", "H200(EU)_1.0_1.3.6.json"), ("smartcam", "C210(EU)_2.0_1.4.2.json")]
STACKS = [("xor", "iot", "HS300(US)_1.0_1.0.10.json"), ("klap1-iot", "iot", "HS110(EU)_4.0_1.0.4.json"), ("linkie", "iot", "EC60(US)_4.0_2.3.22.json"),
          ("aes1", "smart", "P100(US)_1.0.0_1.4.0.json"), ("aes2", "smart", "L530E(EU)_3.0_1.1.6.json"), ("klap2-smart", "smart", "P300(EU)_1.0_1.0.15.json"),
          ("klap2-https", "smart", "P100(US)_1.0.0_1.4.0.json"), ("token", "smart", "RV20 Max Plus(EU)_1.0_1.0.7.json"),
          ("cam", "smartcam", "C210(EU)_2.0_1.4.2.json"), ("cam-md5", "smartcam", "H200(EU)_1.0_1.3.6.json"), ("cam-plain", "smartcam", "C210(EU)_2.0_1.4.3.json")]


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for kind, n in pool():
        deep = (kind, n) in DEEP
        out.append(dict(name="device", kind=kind, fix=n, flow="all", budget=2 if th and deep else 1))
        if kind != "iot":
            out.append(dict(name="single", kind=kind, fix=n, budget=0))
    for st, kind, n in STACKS:
        for creds in ("own", "wrong", "blank"):
            out.append(dict(name="stack", stack=st, kind=kind, fix=n, creds=creds, budget=2 if th else 1))
    out += [dict(name="discover", mode=m, gram=g, budget=0) for g in datagrams() for m in ("broadcast", "single")]
    out += [dict(name="connect", stack=st, kind=kind, fix=n, fault=f, budget=0) for st, kind, n in STACKS for f in ("none", "error")]
    return out


def make_sim(kind, fix):
    data = canarize(sim.load("iotcam" if fix.startswith("EC") else kind, fix), kind)
    if kind == "iot":
        return iotsim.IotSim(data)
    cls = sim.CamSim if kind == "smartcam" else sim.SmartSim
    old = sim._find_child
    cache = {}

    def find(k, ci):
        # the recorded child fixtures need canaries, too
        f = old(k, {**ci})
        if f is None:
            return None
        return canarize(copy.deepcopy(f), k.split("/")[0])
    sim._find_child = find
    try:
        s = cls(data)
    finally:
        sim._find_child = old
    ssid = {"ssid": b64(f"{MARK} net"), "bssid": "02CAFEBA0001", "key_type": "wpa2_psk", "channel": 3, "signal_level": 2, "cipher_type": 2}
    if kind == "smart":
        s.info["get_wireless_scan_info"] = {"ap_list": [ssid], "start_index": 0, "sum": 1, "wep_supported": False}
    return s


def kids(dev):
    from kasa import KasaException
    try:
        return list(dev.children)
    except KasaException:
        return []


def own_names(dev):
    """How the device objects describe themselves."""
    out = []
    for d in [dev, *kids(dev)]:
        for f in (lambda d=d: repr(d), lambda d=d: d.alias):
            try:
                v = f()
            except Exception:  # noqa: BLE001
                continue
            if v:
                out.append(v)
    return sorted(set(out), key=len, reverse=True)


class Faulty:
    """Exchanges that may fail."""

    def __init__(self, ctx, kind, answer, on=True):
        self.ctx, self.kind, self.answer, self.on = ctx, kind, answer, on
        self.wire = []

    def __call__(self, req):
        from kasa.exceptions import TimeoutError as KTimeout, _ConnectionError
        if self.on:
            c = ("ok", "error", "method", "malformed", "nomethod", "lost", "drop")[self.ctx.choose(7, "exchange")]
        else:
            c = "ok"
        if c == "lost":
            raise KTimeout(f"no answer")
        if c == "drop":
            raise _ConnectionError("reset")
        if c == "error" and self.kind != "iot":
            return {"error_code": -1008, "result": self.answer(req).get("result", {})}
        a = self.answer(req)
        if self.kind == "iot":
            if c in ("error", "method"):
                k = sorted(a)[-1]
                for m in a[k]:
                    if isinstance(a[k][m], dict):
                        a[k][m]["err_code"] = -3
            elif c == "malformed":
                return {k: list(v) for k, v in a.items()}
            elif c == "nomethod":
                return {}
        else:
            rs = (a.get("result") or {}).get("responses") if isinstance(a.get("result"), dict) else None
            if c == "method":
                if rs:
                    rs[-1]["error_code"] = -1008
                else:
                    a["error_code"] = -1008
            elif c == "malformed":
                if isinstance(a.get("result"), dict):
                    a["result"] = [a["result"]]
            elif c == "nomethod":
                if rs:
                    rs[0].pop("method", None)
                else:
                    a.pop("error_code", None)
        if c == "ok" and self.on:
            a = self.odd_children(a)
        if c == "ok":
            self.wire.append(a)
        return a

    def odd_children(self, a):
        lists = list(find(a, "child_device_list"))
        comps = list(find(a, "child_component_list"))
        if not (lists and lists[0]) and not (comps and comps[0]):
            return a
        c = ("ok", "category", "noid", "nocomp", "gone")[self.ctx.choose(5, "children")]
        if c == "ok":
            return a
        a = copy.deepcopy(a)
        for x in find(a, "child_device_list"):
            if x and c == "category":
                x[-1]["category"] = "subg.thing"
            if x and c == "noid":
                x[-1].pop("device_id")
            if x and c == "gone":
                x.pop()
        for x in find(a, "child_component_list"):
            if x and c == "nocomp":
                x.pop()
        return a


def find(x, key):
    if isinstance(x, dict):
        for k, v in x.items():
            if k == key and isinstance(v, list):
                yield v
            else:
                yield from find(v, key)
    elif isinstance(x, list):
        for v in x:
            yield from find(v, key)


async def commands(dev, s, kind):
    """A tour of the commands; failures do not matter here."""
    from kasa import KasaException
    from kasa.module import Module

    async def t(coro):
        try:
            return await coro
        except (KasaException, ValueError, LookupError, TypeError, AttributeError, NotImplementedError):
            return None
    await t(dev.update())
    await t(dev.set_alias(f"{MARK} new name"))
    for c in kids(dev)[:2]:
        await t(c.set_alias(f"{MARK} child name"))
        await t(c.turn_on())
        await t(c.update())
    await t(dev.turn_off())
    await t(dev.wifi_scan())
    await t(dev.wifi_join(f"{MARK} net", WIFIPW))
    if hasattr(dev, "update_credentials"):
        await t(dev.update_credentials(USER, PW))
    if kind != "iot" and Module.ChildSetup in dev.modules:
        m = dev.modules[Module.ChildSetup]
        for ident in list(getattr(s, "children", {}))[:1]:
            await t(m.unpair(ident))
            await t(m.pair(timeout=1))
    for f in ("device_id", "ssid", "mac"):
        try:
            getattr(dev, f)
        except Exception:  # noqa: BLE001
            pass
    await asyncio.sleep(90000)
    await t(dev.update())


def run(ctx, p):
    {"device": run_device, "single": run_single, "stack": run_stack, "discover": run_discover, "connect": run_connect}[p["name"]](ctx, p)
    return p["name"]


def proto_for(kind, tr):
    from kasa.protocols import IotProtocol, SmartCamProtocol, SmartProtocol
    return {"iot": IotProtocol, "smart": SmartProtocol, "smartcam": SmartCamProtocol}[kind](transport=tr)


def device_for(kind, s, proto):
    from kasa.smart import SmartDevice
    from kasa.smartcam import SmartCamDevice
    if kind == "iot":
        if s.sysinfo().get("type") == "IOT.IPCAMERA" or s.sysinfo().get("system"):
            from kasa.iot import IotCamera
            return IotCamera("127.0.0.123", protocol=proto)
        return iotsim.iot_class(s)("127.0.0.123", protocol=proto)
    return {"smart": SmartDevice, "smartcam": SmartCamDevice}[kind]("127.0.0.123", protocol=proto)


def strip(x):
    """Comparable form of a device's data."""
    return json.dumps(x, sort_keys=True, default=repr)


def run_device(ctx, p):
    kind = p["kind"]

    def go(log, ctx, on):
        res = {}

        async def main(loop):
            from kasa import Credentials
            s = make_sim(kind, p["fix"])
            fy = Faulty(ctx, kind, s.answer, on)

            async def handler(req, tr):
                return fy(req)
            dev = device_for(kind, s, proto_for(kind, make_transport("127.0.0.123", handler, credentials=Credentials(USER, PW))))
            with Logs(log) as cap:
                await commands(dev, s, kind)
                own = own_names(dev)
            if log:
                scan(cap, f"{p['fix']}", own)
                if not ctx.used:
                    readable(cap, fy.wire, p["fix"])
            res["data"] = strip([dev._last_update] + [c._last_update for c in kids(dev)])
            ctx.note("exchanges", len(fy.wire))
            if not ctx.used and (not fy.wire or (log and not cap.lines)):
                raise core.HarnessError("nothing was exchanged or logged")
            return f"{len(fy.wire)} exchanges"
        core.run_loop(ctx, main)
        return res
    a = go(True, ctx, True)
    if not ctx.used:
        b = go(False, core.Ctx((), 0), False)
        if a != b:
            raise Violation(f"{p['fix']}: the data differs when debug logging is on", "data changed")


def run_single(ctx, p):
    """Every method on its own, and wrapped for a child."""
    kind = p["kind"]

    async def main(loop):
        from kasa import Credentials, KasaException
        s = make_sim(kind, p["fix"])

        async def handler(req, tr):
            return s.answer(req)
        proto = proto_for(kind, make_transport("127.0.0.123", handler, credentials=Credentials(USER, PW)))
        wrap = sess.child_wrapper(kind == "smartcam")
        for who, t in [(None, s), *s.children.items()]:
            pr = proto if who is None else wrap(who, proto)
            for m in sorted(t.info):
                if m[:3] != "get" or not isinstance(t.info[m], dict):
                    continue
                prm = None
                if kind == "smartcam":
                    mod = next(iter(t.info[m]), None)
                    if mod is None or not isinstance(t.info[m][mod], dict):
                        continue
                    prm = {mod: {"name": list(t.info[m][mod])}}
                for q in ({m: prm}, {m: prm, "get_device_usage" if kind == "smart" else "getSdCardStatus": None if kind == "smart" else {"harddisk_manage": {"table": ["hd_info"]}}}):
                    with Logs() as cap:
                        try:
                            r = await pr.query(q)
                        except KasaException:
                            r = None
                    scan(cap, f"{p['fix']} {m}{' of a child' if who else ''} ({len(q)})")
                    ctx.note(m)
                    if r and m in r and isinstance(r[m], dict) and who is None and kind == "smart":
                        want = json.loads(json.dumps(t.info[m]))
                        if strip(r[m]) != strip(want) and "start_index" not in want:
                            raise Violation(f"{p['fix']} {m}: caller got {strip(r[m])[:200]}, device sent {strip(want)[:200]}", "data changed")
    core.run_loop(ctx, main)


def prepare():
    from mc.checks import c13
    sess.prepare()
    c13.prepare()


def run_stack(ctx, p):
    kind = p["kind"]

    async def main(loop):
        from kasa import KasaException
        n = net.Net(loop, ctx)
        s = make_sim(kind, p["fix"])
        creds = {"own": (USER, PW), "wrong": (USER, PW + "x"), "blank": (USER, PW)}[p["creds"]]
        devc = {"own": (USER, PW), "wrong": (USER, PW), "blank": ("", "")}[p["creds"]]
        with Logs() as cap:
            st = sess.Stack(n, p["stack"], creds=creds, dev_creds=devc, host="h", app=s.answer)
            dev = device_for(kind, s, st.proto)
            srv = st.server
            n.http_faults = ["disconnect", "timeout"] if not p["stack"] == "xor" else []
            for i in range(2):
                try:
                    await dev.update()
                except KasaException:
                    pass
                ev = ctx.pick(("none", "drop", "old") if hasattr(srv, "drop_sessions") else ("none", "old"), "event") if i == 0 else None
                if ev == "drop":
                    srv.drop_sessions()
                elif ev == "old":
                    await asyncio.sleep(86500)
            n.http_faults = []
            await commands(dev, s, kind)
            try:
                await st.proto.close()
            except KasaException:
                pass
            own = own_names(dev)
        scan(cap, f"{p['stack']} {p['fix']} {p['creds']}", own)
    core.run_loop(ctx, main)


# ---------------------------------------------------------------- discovery
def canary_legacy(ip, **kw):
    from mc.checks import c13
    d = c13.legacy(ip, **kw)
    info = d["system"]["get_sysinfo"]
    info.update(alias="x", latitude_i=1, longitude_i=1, oemId="0" * 32, ssid="x", latitude=1.0, longitude=1.0)
    if "children" in info:
        info["children"] = [{"id": "00", "state": 1, "alias": "x"}, {"id": "01", "state": 1, "alias": "y"}]
    return canarize(d, "iot")


def canary_new(ip, typ, enc, **kw):
    from mc.checks import c13
    d = c13.new(ip, typ, enc, **kw)
    r = d["result"]
    if not isinstance(r, dict):
        return d
    r.setdefault("device_name", "n")
    r.update(group_id="0" * 8, group_name="g", master_device_id="0" * 32)
    out = canarize(d, "smart")
    out["result"]["device_name"] = f"{MARK} camera"
    return out


def secret_info(n):
    c = Canary("smart")
    return c.walk({"connect_type": "wireless", "connect_ssid": "n", "owner": "o" * 32, "device_id": "d" * 32, "http_port": n, "sd_status": "offline"})


def datagrams():
    """name -> (port, bytes)"""
    from mc.checks import c13
    if not c13._QUERY_KEY[0]:
        c13.prepare()
    ip = c13.H1
    out = {}

    def leg(name, doc):
        out[name] = (9999, c13.xor(json.dumps(doc).encode()))

    def neu(name, doc):
        out[name] = (20002, c13.HDR + json.dumps(doc).encode())

    leg("plug", canary_legacy(ip))
    leg("strip", canary_legacy(ip, model="HS300(US)", key="type", children=[]))
    leg("fridge", canary_legacy(ip, typ="IOT.FRIDGE"))
    leg("legacy-error", {"system": {"get_sysinfo": {**canary_legacy(ip)["system"]["get_sysinfo"], "err_code": -3}}})
    d = canary_legacy(ip)
    del d["system"]["get_sysinfo"]["mic_type"]
    leg("legacy-notype", d)
    leg("legacy-cam", {"system": {"get_sysinfo": {"system": {**canary_legacy(ip)["system"]["get_sysinfo"], "type": "IOT.IPCAMERA", "model": "EC60(US)", "a": 1, "b": 2}}}})
    leg("legacy-list", [canary_legacy(ip)])
    leg("legacy-inner-list", {"system": {"get_sysinfo": [canary_legacy(ip)["system"]["get_sysinfo"]]}})
    for k in ("mac", "model", "deviceId", "alias", "sw_ver"):
        d = canary_legacy(ip)
        del d["system"]["get_sysinfo"][k]
        leg(f"legacy-no-{k}", d)
    for nm, typ, enc, kw in (("klap", "SMART.TAPOPLUG", "KLAP", {}), ("aes", "SMART.TAPOBULB", "AES", {"lv": None}), ("iotklap", "IOT.SMARTPLUGSWITCH", "KLAP", {}),
                             ("vac", "SMART.TAPOROBOVAC", "AES", {"https": True, "port": 4433}), ("hub", "SMART.TAPOHUB", "AES", {"https": True}),
                             ("un-family", "SMART.TAPOXMASTREE", "AES", {}), ("un-enc", "SMART.TAPOBULB", "FOO", {}), ("un-pair", "IOT.SMARTPLUGSWITCH", "AES", {}),
                             ("un-https", "IOT.SMARTPLUGSWITCH", "KLAP", {"https": True}), ("un-noschm", "SMART.TAPOPLUG", "KLAP", {"drop": ["mgt_encrypt_schm"]}),
                             ("un-noenc", "SMART.TAPOPLUG", None, {}), ("un-lv", "SMART.IPCAMERA", "AES", {"https": True, "lv": None, "encrypt_type": ["x"]})):
        neu(nm, canary_new(ip, typ, enc, **kw))
    for k in ("device_id", "owner", "device_type", "device_model", "ip", "mac", "mgt_encrypt_schm"):
        neu(f"no-{k}", canary_new(ip, "SMART.TAPOPLUG", "KLAP", drop=[k]))
        if k not in SENS:
            d = canary_new(ip, "SMART.TAPOPLUG", "KLAP")
            d["result"][k] = [d["result"][k]]
            neu(f"list-{k}", d)
    neu("list-result", {"result": [canary_new(ip, "SMART.TAPOPLUG", "KLAP")["result"]], "error_code": 0})
    neu("error", {**canary_new(ip, "SMART.TAPOPLUG", "KLAP"), "error_code": -1})
    cam = dict(https=True, port=None, lv=None, encrypt_type=["3"])
    neu("cam", canary_new(ip, "SMART.IPCAMERA", None, encrypt_info=c13.enc_info(secret_info(1)), **cam))
    neu("cam-un", canary_new(ip, "SMART.XYZ", None, encrypt_info=c13.enc_info(secret_info(1)), **cam))
    neu("cam-enc", canary_new(ip, "SMART.IPCAMERA", "FOO", encrypt_info=c13.enc_info(secret_info(1)), **cam))
    info = c13.enc_info(secret_info(1))
    neu("cam-badkey", canary_new(ip, "SMART.IPCAMERA", None, encrypt_info={**info, "key": "AAAA"}, **cam))
    neu("cam-baddata", canary_new(ip, "SMART.IPCAMERA", None, encrypt_info={**info, "data": info["data"][:-24]}, **cam))
    neu("cam-nokey", canary_new(ip, "SMART.IPCAMERA", None, encrypt_info={"sym_schm": "AES", "data": info["data"]}, **cam))
    for nm in ("plug", "klap", "cam"):
        port, raw = out[nm]
        for i in range(1, 10):
            out[f"{nm}-cut{i}"] = (port, raw[:len(raw) * i // 10])
        out[f"{nm}-tail"] = (port, c13.xor(c13.unxor(raw) + b"}") if port == 9999 else raw + b"}")
        out[f"{nm}-bin"] = (port, c13.xor(c13.unxor(raw)[:-9] + b"\xff\xfe" + c13.unxor(raw)[-9:]) if port == 9999 else raw[:-9] + b"\xff\xfe" + raw[-9:])
        out[f"{nm}-port"] = (29998 - port + 3, raw) if port == 9999 else (9999, raw)
    return out


def run_discover(ctx, p):
    from kasa import Credentials, KasaException
    import kasa.discover as kd
    from mc.checks import c13
    grams = datagrams()
    name = p["gram"]
    then = ctx.pick(("none", "connect"), "then")

    async def main(loop):
        nw = net.Net(loop, ctx)
        port, raw = grams[name]

        def arrive():
            if nw.udps and not nw.udps[0].closed:
                try:
                    nw.udps[0].deliver(raw, (c13.H1, port))
                except Exception as ex:  # noqa: BLE001
                    raise Violation(f"{name}: {ex!r} escapes", "datagram not handled") from ex
        loop.call_later(0.3, arrive)
        own = []
        with Logs() as cap:
            kw = dict(discovery_timeout=2, credentials=Credentials(USER, PW))

            async def cb(x):
                pass
            if p["mode"] == "broadcast":
                devs = list((await kd.Discover.discover(on_discovered=cb, on_unsupported=cb, on_discovered_raw=lambda r: None, **kw)).values())
            else:
                try:
                    devs = [await kd.Discover.discover_single(c13.H1, **kw)]
                except KasaException:
                    devs = []
            for d in devs:
                own += own_names(d)
                if then == "connect":
                    try:
                        await d.update()
                    except KasaException:
                        pass
                await d.disconnect()
        scan(cap, f"discovery of {name} ({p['mode']})", own)
        if devs and port == 9999:
            readable(cap, [json.loads(c13.unxor(raw))], name)
        elif devs:
            readable(cap, [json.loads(raw[16:])], name)
        ctx.note(name, len(devs))
    core.run_loop(ctx, main)


def run_connect(ctx, p):
    """Connecting with stored configurations, and with every combination."""
    kind = p["kind"]

    async def main(loop):
        from kasa import Credentials, Device, DeviceConfig, Discover, KasaException
        n = net.Net(loop, ctx)
        s = make_sim(kind, p["fix"])
        if p["fault"] == "error" and kind == "iot":
            s0 = s.answer

            def answer(req):
                a = s0(req)
                for v in a.values():
                    for x in v.values():
                        x["err_code"] = -3
                return a
        elif p["fault"] == "error":
            def answer(req):
                return {**s.answer(req), "error_code": -1008}
        else:
            answer = s.answer
        own = []
        with Logs() as cap:
            st = sess.Stack(n, p["stack"], creds=(USER, PW), dev_creds=(USER, PW), host="h", app=answer)
            await st.proto.close()
            if p["stack"] != "xor":
                from mc.checks import c14
                (addr, srv), = n.http.items()
                n.http[addr] = c14.Front(srv, c14.UNDERSTANDS.get({"cam-md5": "cam", "cam-plain": "cam", "klap2-https": "klap2"}.get(p["stack"], p["stack"].split("-")[0]), lambda r: True))
            creds = Credentials(USER, PW if ctx.pick(("right", "wrong"), "password") == "right" else PW + "x")
            how = ctx.pick(("all", "config", "hash"), "how")
            dev = None
            try:
                if how == "all":
                    dev = await Discover.try_connect_all("h", credentials=creds, timeout=5)
                elif how == "config":
                    dev = await Device.connect(config=DeviceConfig("h", credentials=creds, connection_type=st.config.connection_type))
                else:
                    dev = await Device.connect(config=DeviceConfig("h", credentials_hash=st.proto._transport.credentials_hash, connection_type=st.config.connection_type))
            except KasaException:
                pass
            except Exception as ex:  # noqa: BLE001
                ctx.note("raised", type(ex).__name__)
            if dev:
                own = own_names(dev)
                await dev.disconnect()
        if n.force:
            pass
        secret = st.transport.credentials_hash
        if secret:
            for _n, _l, msg, text in cap.lines:
                if secret in text:
                    raise Violation(f"{p['stack']}: the credentials hash is in the log: {text[:200]}", "credentials hash")
        scan(cap, f"connecting to {p['stack']} {p['fix']} ({how})", own)
        ctx.note("connected", dev is not None)
    core.run_loop(ctx, main)
