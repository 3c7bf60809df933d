"""C13: discovery reports each answering device once, whatever datagrams arrive."""

from __future__ import annotations

import asyncio
import base64
import binascii
import json
import socket
import struct

from mc import core, net
from mc.core import Violation

BOUNDS = {
    "quick": "every sequence of 1-2 datagrams (3 for a reduced alphabet) from 28 kinds x 2 hosts x arrival phase (early, late, during callbacks) x {broadcast, single address, host name} x callback behaviours {none, instant, slow, failing} x custom port; cancellation at every step of short runs",
    "thorough": "3 datagrams of the full alphabet, 4 of the reduced one",
}
ASSUMPTIONS = ["a host is judged by its first readable reply from a discovery port: usable or unsupported; unreadable ones do not count",
               "JSON replies of a wrong shape may be counted as unsupported or as unreadable"]
H1, H2 = "10.1.1.1", "10.1.1.2"
PORT = 9999


# ---------------------------------------------------------------- datagrams
def xor(plain: bytes) -> bytes:
    k, out = 171, bytearray()
    for b in plain:
        k ^= b
        out.append(k)
    return bytes(out)


def unxor(data: bytes) -> bytes:
    k, out = 171, bytearray()
    for b in data:
        out.append(k ^ b)
        k = b
    return bytes(out)


HDR = b"\x02\x00\x00\x01\x01[\x00\x00\x00\x00\x00\x00W\xcev\xf8"


def num(ip):
    return int(ip.rsplit(".", 1)[1])


def legacy(ip, model="HS100(UK)", typ="IOT.SMARTPLUGSWITCH", key="mic_type", **extra):
    n = num(ip)
    return {"system": {"get_sysinfo": {
        "alias": f"dev {n}", "dev_name": "Smart Wi-Fi Plug", "deviceId": f"{n:040X}", "err_code": 0, "hwId": "0" * 32, "hw_ver": "1.0",
        "mac": f"00:11:22:33:44:{n:02X}", key: typ, "model": model, "sw_ver": "1.1.0 Build 201016 Rel.175121", "updating": 0, **extra}}}


def new(ip, typ, enc, model="P110(EU)", https=False, port=80, lv=2, drop=(), **extra):
    n = num(ip)
    schm = {"is_support_https": https, "encrypt_type": enc, "http_port": port, "lv": lv}
    schm = {k: v for k, v in schm.items() if v is not None}
    r = {"device_id": f"{n:032x}", "owner": "o" * 32, "device_type": typ, "device_model": model, "ip": ip,
         "mac": f"00-11-22-33-55-{n:02X}", "is_support_iot_cloud": True, "obd_src": "tplink", "factory_default": False,
         "mgt_encrypt_schm": schm, **extra}
    for d in drop:
        r.pop(d)
    return {"result": r, "error_code": 0}


def enc_info(payload):
    """As a camera does: a fresh AES key, encrypted with the RSA key of the query."""
    from cryptography.hazmat.primitives import padding, serialization
    from cryptography.hazmat.primitives.asymmetric import padding as ap
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    pub = serialization.load_pem_public_key(_QUERY_KEY[0].encode())
    key, iv = b"K" * 16, b"V" * 16
    p = padding.PKCS7(128).padder()
    body = p.update(json.dumps(payload).encode()) + p.finalize()
    e = Cipher(algorithms.AES(key), modes.CBC(iv)).encryptor()
    data = e.update(body) + e.finalize()
    # PKCS#1 v1.5 by hand: no process randomness in a trace
    k = (pub.key_size + 7) // 8
    nums = pub.public_numbers()
    from cryptography.hazmat.primitives import hashes
    if OAEP[0]:
        ek = pub.encrypt(key + iv, ap.OAEP(mgf=ap.MGF1(hashes.SHA1()), algorithm=hashes.SHA1(), label=None))
    else:
        m = b"\x00\x02" + b"\x11" * (k - 3 - 32) + b"\x00" + key + iv
        ek = pow(int.from_bytes(m, "big"), nums.e, nums.n).to_bytes(k, "big")
    return {"sym_schm": "AES", "key": base64.b64encode(ek).decode(), "data": base64.b64encode(data).decode()}


OAEP = [True]
_QUERY_KEY = [None]
SECRET = {"connect_type": "wireless", "connect_ssid": "nét", "owner": "abc"}


def expect(cls, family, enc, lv, https, port, proto, transport, model):
    return dict(cls=cls, family=family, enc=enc, lv=lv, https=https, port=port, proto=proto, transport=transport, model=model)


def L(fn, exp):
    return "valid", PORT, lambda ip: xor(json.dumps(fn(ip)).encode()), fn, exp


def N(fn, exp):
    return "valid", 20002, lambda ip: HDR + json.dumps(fn(ip)).encode(), fn, exp


def U(fn):
    return "unsupported", 20002, lambda ip: HDR + json.dumps(fn(ip)).encode(), fn, None


def X(cat, port, raw):
    return cat, port, raw if callable(raw) else (lambda ip: raw), None, None


XORT = ("IotProtocol", "XorTransport")
KINDS = {
    # usable replies
    "plug": L(legacy, expect("IotPlug", "IOT.SMARTPLUGSWITCH", "XOR", None, False, 9999, *XORT, "HS100")),
    "bulb": L(lambda ip: legacy(ip, "LB130(US)", "IOT.SMARTBULB", mic_mac="50C7BF000000"), expect("IotBulb", "IOT.SMARTBULB", "XOR", None, False, 9999, *XORT, "LB130")),
    "strip": L(lambda ip: legacy(ip, "HS300(US)", key="type", children=[{"id": "00", "state": 1, "alias": "x"}]), expect("IotStrip", "IOT.SMARTPLUGSWITCH", "XOR", None, False, 9999, *XORT, "HS300")),
    "lightstrip": L(lambda ip: legacy(ip, "KL430(US)", "IOT.SMARTBULB", length=16), expect("IotLightStrip", "IOT.SMARTBULB", "XOR", None, False, 9999, *XORT, "KL430")),
    "dimmer": L(lambda ip: legacy(ip, "HS220(US)", key="type", dev_name="Smart Wi-Fi Dimmer"), expect("IotDimmer", "IOT.SMARTPLUGSWITCH", "XOR", None, False, 9999, *XORT, "HS220")),
    "switch": L(lambda ip: legacy(ip, "HS200(US)", key="type", dev_name="Smart Wi-Fi Light Switch"), expect("IotWallSwitch", "IOT.SMARTPLUGSWITCH", "XOR", None, False, 9999, *XORT, "HS200")),
    "klap": N(lambda ip: new(ip, "SMART.TAPOPLUG", "KLAP"), expect("SmartDevice", "SMART.TAPOPLUG", "KLAP", 2, False, 80, "SmartProtocol", "KlapTransportV2", "P110")),
    "aes": N(lambda ip: new(ip, "SMART.TAPOBULB", "AES", "L530(EU)", lv=None), expect("SmartDevice", "SMART.TAPOBULB", "AES", None, False, 80, "SmartProtocol", "AesTransport", "L530")),
    "aesport": N(lambda ip: new(ip, "SMART.KASAHUB", "AES", "KH100(UK)", port=8080), expect("SmartDevice", "SMART.KASAHUB", "AES", 2, False, 8080, "SmartProtocol", "AesTransport", "KH100")),
    "iotklap": N(lambda ip: new(ip, "IOT.SMARTPLUGSWITCH", "KLAP", "HS100(UK)", lv=None), expect("IotPlug", "IOT.SMARTPLUGSWITCH", "KLAP", None, False, 80, "IotProtocol", "KlapTransport", "HS100")),
    "cam": N(lambda ip: new(ip, "SMART.IPCAMERA", None, "C210", https=True, port=None, lv=None, encrypt_type=["3"], encrypt_info=enc_info({**SECRET, "n": num(ip)})),
             expect("SmartCamDevice", "SMART.IPCAMERA", "AES", 3, True, 443, "SmartCamProtocol", "SslAesTransport", "C210")),
    "cambad": N(lambda ip: new(ip, "SMART.IPCAMERA", None, "C100", https=True, port=None, lv=None, encrypt_type=["1", "2"], encrypt_info={"sym_schm": "AES", "key": "AAAA", "data": "!!"}),
                expect("SmartCamDevice", "SMART.IPCAMERA", "AES", 2, True, 443, "SmartCamProtocol", "SslAesTransport", "C100")),
    "hubcam": N(lambda ip: new(ip, "SMART.TAPOHUB", "AES", "H200(EU)", https=True, port=None), expect("SmartCamDevice", "SMART.TAPOHUB", "AES", 2, True, 443, "SmartCamProtocol", "SslAesTransport", "H200")),
    "vac": N(lambda ip: new(ip, "SMART.TAPOROBOVAC", "AES", "RV20(EU)", https=True, port=4433, lv=None), expect("SmartDevice", "SMART.TAPOROBOVAC", "AES", None, True, 4433, "SmartProtocol", "SslTransport", "RV20")),
    # answers of devices that cannot be used
    "un-family": U(lambda ip: new(ip, "SMART.TAPOXMASTREE", "AES")),
    "un-iot": U(lambda ip: new(ip, "IOT.IOTXMASTREE", "AES")),
    "un-enc": U(lambda ip: new(ip, "SMART.TAPOBULB", "FOO")),
    "un-pair": U(lambda ip: new(ip, "IOT.SMARTPLUGSWITCH", "AES")),
    "un-https": U(lambda ip: new(ip, "IOT.SMARTPLUGSWITCH", "KLAP", https=True)),
    "un-noschm": U(lambda ip: new(ip, "SMART.TAPOPLUG", "KLAP", drop=["mgt_encrypt_schm"])),
    "un-noenc": U(lambda ip: new(ip, "SMART.TAPOPLUG", None)),
    "un-noid": U(lambda ip: new(ip, "SMART.TAPOPLUG", "KLAP", drop=["device_id"])),
    "un-lv": U(lambda ip: new(ip, "SMART.IPCAMERA", "AES", https=True, lv=None, encrypt_type=["x"])),
    "un-cam": ("unsupported", PORT, lambda ip: xor(json.dumps({"system": {"get_sysinfo": {"system": {**legacy(ip)["system"]["get_sysinfo"], "type": "IOT.IPCAMERA", "model": "EC60(US)", "a": 1, "b": 2}}}}).encode()), None, None),
    # damaged or foreign data
    "garbage": X("bad", PORT, b"\x01\x02\x03\x04 not json"),
    "empty": X("bad", PORT, b""),
    "cut": X("bad", PORT, lambda ip: xor(json.dumps(legacy(ip)).encode())[:60]),
    "cut2": X("bad", 20002, lambda ip: (HDR + json.dumps(new(ip, "SMART.TAPOPLUG", "KLAP")).encode())[:90]),
    "short": X("bad", 20002, b"\x02\x00\x00\x01"),
    "bin": X("bad", 20002, HDR + b"\xff\xfe\x00\x80"),
    "swap": X("bad", 20002, lambda ip: xor(json.dumps(legacy(ip)).encode())),
    "swap2": X("bad", PORT, lambda ip: HDR + json.dumps(new(ip, "SMART.TAPOPLUG", "KLAP")).encode()),
    "list": X("odd", PORT, xor(b"[]")),
    "null": X("odd", PORT, xor(b"null")),
    "nosys": X("odd", PORT, xor(b'{"system":{}}')),
    "sysnull": X("odd", PORT, xor(b'{"system":null}')),
    "infonull": X("odd", PORT, xor(b'{"system":{"get_sysinfo":null}}')),
    "typenum": X("odd", PORT, xor(b'{"system":{"get_sysinfo":{"type":5}}}')),
    "notype": X("odd", PORT, xor(b'{"system":{"get_sysinfo":{"err_code":-1}}}')),
    "legtype": X("odd", PORT, lambda ip: xor(json.dumps(legacy(ip, typ="IOT.FRIDGE")).encode())),
    "list2": X("odd", 20002, HDR + b"[1]"),
    "num2": X("odd", 20002, HDR + b"7"),
    "err2": X("odd", 20002, HDR + b'{"error_code":-1}'),
    "resnull": X("odd", 20002, HDR + b'{"result":null}'),
    "reslist": X("odd", 20002, HDR + b'{"result":[]}'),
    "wrongt": X("odd", 20002, lambda ip: HDR + json.dumps(new(ip, 5, "KLAP", mac=7)).encode()),
    "foreign": X("foreign", 1040, lambda ip: xor(json.dumps(legacy(ip)).encode())),
    "foreign2": X("foreign", 80, lambda ip: HDR + json.dumps(new(ip, "SMART.TAPOPLUG", "KLAP")).encode()),
}
# 'late': a reply that is damaged is followed by an intact one: see the pairs of one host
CORE = ["plug", "klap", "cam", "un-family", "garbage", "short", "list", "err2", "foreign"]


def prepare():
    import kasa.discover as d
    kp = d._AesDiscoveryQuery
    if not kp.keypair:
        kp.generate_query()
    q = bytes(kp.generate_query())
    _QUERY_KEY[0] = json.loads(q[16:])["params"]["rsa_key"]
    for o in (True, False):
        OAEP[0] = o
        info = enc_info({"a": 1})
        try:
            if kp.keypair.decrypt_discovery_key(base64.b64decode(info["key"])) == b"K" * 16 + b"V" * 16:
                break
        except Exception:  # noqa: BLE001
            continue


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for mode in ("broadcast", "single", "name"):
        out += [dict(mode=mode, n=n, cb=cb, first=[k], rest="all") for n in (1, 2) for cb in ("none", "slow") for k in KINDS]
    out += [dict(mode=m, n=3, cb=cb, first=[k], rest="all" if deep else "core") for m in ("broadcast", "single") for cb in ("slow", "fail") for k in (KINDS if deep else CORE)]
    out += [dict(mode="broadcast", n=2, cb=cb, first=[k], rest="core") for cb in ("instant", "fail", "failvalue") for k in CORE]
    out += [dict(mode=m, n=2, cb="none", first=[k], rest="core", port=1234) for m in ("broadcast", "single") for k in CORE]
    out += [dict(mode=m, n=1, cb="slow", first=[k], rest="core", creds=c) for m in ("broadcast", "single") for k in CORE for c in ("obj", "pair", "both", "user")]
    out += [dict(mode=m, n=2, cb="slow", first=[k], rest="core", cancel=1, budget=1) for m in ("broadcast", "single") for k in ("plug", "klap", "un-family", "garbage")]
    out += [dict(mode="noname", n=1, cb="none", first=["plug"], rest="core")]
    if deep:
        out += [dict(mode=m, n=4, cb="slow", first=[k], rest="core") for m in ("broadcast", "single") for k in CORE]
    return out


def stack(dev):
    return type(dev.protocol).__name__, type(dev.protocol._transport).__name__


def run(ctx, prm):
    from kasa import Credentials, Device, KasaException
    from kasa.exceptions import TimeoutError as KTimeout
    from kasa.exceptions import UnsupportedDeviceError
    import kasa.discover as kd
    mode, cbk = prm["mode"], prm["cb"]
    single = mode != "broadcast"
    port = prm.get("port")
    # the datagrams of this execution
    plan = []
    t = 0.3
    for i in range(prm["n"]):
        kind = prm["first"][i] if i < len(prm["first"]) else ctx.pick(list(KINDS) if prm["rest"] == "all" else CORE, f"kind{i}")
        ip = H1 if i == 0 and not single else ctx.pick([H1, H2], f"host{i}")
        t += ctx.pick([0.4] if i == 0 and prm["n"] > 2 else [0.4, 5.2 - t] if t < 5 else [0.4], f"when{i}") if i or single or cbk == "slow" else 0.0
        plan.append((round(t, 2), kind, ip))
    for p in plan:
        ctx.note("plan", *p)
    un_cb = {"none": None}.get(cbk, cbk)
    started, finished, found_cb, un_cbs, raws = [], [], [], [], []

    class Boom(Exception):
        pass

    async def body(name):
        started.append(name)
        try:
            if cbk == "slow" or (cbk == "fail" and name[1] == H2):
                await asyncio.sleep(1.5 if name[0] == "found" else 0.7)
            if cbk == "fail" and name[1] == H1:
                raise KasaException("callback failed")
            if cbk == "failvalue" and name[1] == H1:
                raise Boom("callback failed")
        finally:
            finished.append(name)

    async def on_discovered(dev):
        found_cb.append((dev.host, dev))
        await body(("found", dev.host))

    async def on_unsupported(ex):
        if not isinstance(ex, UnsupportedDeviceError):
            raise Violation(f"on_unsupported was called with {ex!r}", "unsupported callback")
        un_cbs.append(ex)
        await body(("unsupported", ex.host))

    creds = prm.get("creds")
    kw = dict(discovery_timeout=5, port=port, timeout=7)
    want_creds = None
    if creds in ("obj", "both"):
        kw["credentials"] = want_creds = Credentials("u", "p")
    if creds in ("pair", "both"):
        kw.update(username="x", password="y")
        want_creds = want_creds or Credentials("x", "y")
    if creds == "user":
        kw["username"] = "x"
    if cbk != "none" or single:
        kw["on_discovered_raw"] = lambda r: raws.append(r)
    state = {}

    async def main(loop):
        nw = net.Net(loop, ctx)
        loop.cancel_budget = prm.get("cancel", 0)
        real_gai = []

        async def gai(host, prt, **k):
            real_gai.append(host)
            if mode == "noname":
                raise socket.gaierror("unknown")
            return [(socket.AF_INET, socket.SOCK_DGRAM, 17, "", (H1, prt)), (socket.AF_INET, socket.SOCK_DGRAM, 17, "", (H2, prt))]
        loop.getaddrinfo = gai
        log = []

        def arrive(kind, ip):
            ep = nw.udps[0] if nw.udps else None
            cat, prt, raw, fn, exp = KINDS[kind]
            if prt == PORT and port:
                prt = port
            open_ = ep is not None and not ep.closed
            ctx.note("arrives", kind, ip, open_)
            if not open_:
                return
            log.append((loop.time(), kind, ip, prt))
            try:
                ep.deliver(raw(ip), (ip, prt))
            except Exception as ex:  # noqa: BLE001
                # asyncio: the exception goes to the loop's handler, reading goes on
                state.setdefault("escaped", []).append((kind, ex))

        for tm, kind, ip in plan:
            loop.call_later(tm, arrive, kind, ip)
        if single:
            if cbk != "none":
                kw["on_unsupported"] = on_unsupported
            coro = kd.Discover.discover_single(H1 if mode == "single" else "plug.lan", **kw)
        else:
            if cbk != "none":
                kw.update(on_discovered=on_discovered, on_unsupported=on_unsupported)
            coro = kd.Discover.discover(**kw)
        task = loop.create_task(coro)
        loop.cancellable("discovery", task)
        start = loop.time()
        try:
            res = ("ok", await task)
        except asyncio.CancelledError:
            res = ("cancelled", None)
        except Exception as ex:  # noqa: BLE001
            res = ("error", ex)
        dur = loop.time() - start
        # whatever is left over
        unfinished = [x for x in started if x not in finished]
        me = asyncio.current_task()
        await asyncio.sleep(0)
        left = [x for x in asyncio.all_tasks(loop) if x is not me and not x.done()]
        judge(ctx, prm, res, dur, log, unfinished, left, nw, state, dict(found=found_cb, un=un_cbs, raws=raws, gai=real_gai), want_creds, port)
        return res[0]

    return core.run_loop(ctx, main)


def judge(ctx, prm, res, dur, log, unfinished, left, nw, state, seen, want_creds, port):
    from kasa import KasaException
    from kasa.exceptions import TimeoutError as KTimeout
    from kasa.exceptions import UnsupportedDeviceError
    mode, cbk = prm["mode"], prm["cb"]
    single = mode != "broadcast"
    kind, val = res
    ctx.obs.append((kind, type(val).__name__))
    if any(not u.closed for u in nw.udps):
        raise Violation("the discovery socket is still open", "socket left open")
    if mode == "noname":
        if kind != "error" or not isinstance(val, KasaException) or nw.udps:
            raise Violation(f"an unknown host name gave {res!r}", "unresolvable name")
        return
    check_sends(nw, prm, port, dur, log)
    if state.get("escaped"):
        k, ex = state["escaped"][0]
        raise Violation(f"a {k} datagram made discovery fail internally: {ex!r}", "datagram not handled")
    # what the datagrams say
    decided, maybe, unread = {}, {}, set()
    for _t, k, ip, _p in log:
        cat = KINDS[k][0]
        if ip in decided:
            continue
        if cat in ("valid", "unsupported") and ip not in maybe:
            decided[ip] = (cat, k)
        elif cat in ("valid", "unsupported"):
            decided[ip] = ("either", k)
        elif cat == "odd":
            maybe[ip] = k
        elif cat == "bad":
            unread.add(ip)
    if kind == "cancelled" or not single:
        # nothing of a discovery survives its end
        if unfinished or left:
            raise Violation(f"discovery ended ({kind}) while callbacks {unfinished} / tasks {left} were still running", "callbacks left running")
    if kind == "cancelled":
        return
    if not single:
        judge_broadcast(ctx, prm, res, dur, decided, maybe, seen, want_creds, port)
    else:
        judge_single(ctx, prm, res, dur, decided, maybe, unread, seen, want_creds, port, left)
    # raw callback: exactly what was sent
    sent = [(ip, p, KINDS[k]) for _t, k, ip, p in log]
    for r in seen["raws"]:
        ok = False
        for ip, p, (_c, _p, raw, fn, _e) in sent:
            if r["meta"] == {"ip": ip, "port": p}:
                data = raw(ip)
                try:
                    doc = json.loads(unxor(data)) if p != 20002 else json.loads(data[16:])
                except Exception:  # noqa: BLE001
                    continue
                ok = ok or doc == r["discovery_response"] or (isinstance(doc, dict) and "encrypt_info" in (doc.get("result") or {}))
        if not ok:
            raise Violation(f"on_discovered_raw was called with {r}, which nobody sent", "raw callback")
    if cbk != "none" or single:
        for ip, (cat, k) in decided.items():
            n = sum(1 for r in seen["raws"] if r["meta"]["ip"] == ip)
            if cat in ("valid", "unsupported") and ip not in maybe and n != 1:
                raise Violation(f"on_discovered_raw was called {n} times for {ip} ({k})", "raw callback")


def judge_broadcast(ctx, prm, res, dur, decided, maybe, seen, want_creds, port):
    kind, val = res
    cbk = prm["cb"]
    must_fail = cbk in ("fail", "failvalue") and H1 in {d.host for _h, d in seen["found"]} | {e.host for e in seen["un"]}
    hosts_cb = [h for h, _ in seen["found"]]
    if len(set(hosts_cb)) != len(hosts_cb):
        raise Violation(f"on_discovered was called for {hosts_cb}", "reported twice")
    for ip, (cat, k) in decided.items():
        if cbk == "none":
            break
        n = hosts_cb.count(ip)
        u = sum(1 for e in seen["un"] if e.host == ip)
        if cat == "valid" and (n, u) != (1, 0):
            raise Violation(f"{ip} sent a valid reply ({k}); on_discovered was called {n} times, on_unsupported {u} times", "device not reported")
        if cat == "unsupported" and (n, u) != (0, 1):
            raise Violation(f"{ip} is unsupported ({k}); on_discovered was called {n} times, on_unsupported {u} times", "unsupported not reported")
    if must_fail:
        if kind != "error" or "callback failed" not in str(val):
            raise Violation(f"a callback failed, discovery ended with {res!r}", "callback failure lost")
        return
    if kind == "error":
        raise Violation(f"discovery failed: {val!r}", "discovery aborted")
    for ip in val:
        cat = decided.get(ip, (None,))[0]
        if cat not in ("valid", "either"):
            raise Violation(f"{ip} is reported as a device: {val[ip]!r}; it sent no usable reply", "not a device")
        check_device(val[ip], ip, ip, decided[ip][1], want_creds, port)
    for ip, (cat, k) in decided.items():
        if cat == "valid" and ip not in val:
            raise Violation(f"{ip} sent a valid reply ({k}) but is missing in the result {list(val)}", "device hidden")
    for h, d in seen["found"]:
        if val.get(h) is not d:
            raise Violation(f"on_discovered got another object than the result for {h}", "callback object")
    if dur < 4.999:
        raise Violation(f"discovery ended after {dur} s of 5 s", "ended early")
    if dur > 5.0 + 0.01 + (20 if prm["cb"] in ("slow", "fail") else 0):
        raise Violation(f"discovery took {dur} s", "took too long")


def judge_single(ctx, prm, res, dur, decided, maybe, unread, seen, want_creds, port, left):
    from kasa import KasaException
    from kasa.exceptions import TimeoutError as KTimeout
    from kasa.exceptions import UnsupportedDeviceError
    kind, val = res
    host = H1 if prm["mode"] == "single" else "plug.lan"
    cat, k = decided.get(H1, (None, None))
    if left:
        raise Violation(f"discovery of {host} left tasks running: {left}", "tasks left")
    if dur > 5.01 + (1 if prm["cb"] != "none" else 0):
        raise Violation(f"discovery of one host took {dur} s", "took too long")
    if kind == "error" and not isinstance(val, KasaException):
        raise Violation(f"discovery of {host} failed with {val!r}", "unexpected error")
    if cat == "valid":
        if kind != "ok" or val is None:
            raise Violation(f"{host} sent a valid reply ({k}) but discovery gave {res!r}", "device hidden")
        check_device(val, host, H1, k, want_creds, port)
        if seen["un"]:
            raise Violation("on_unsupported was called for a usable device", "unsupported callback")
    elif cat == "unsupported" or (cat is None and H1 in maybe) or cat == "either":
        if kind == "ok" and val is not None:
            if cat != "either" or KINDS[k][0] != "valid":
                raise Violation(f"{host} is unsupported ({k}) but {val!r} was returned", "not a device")
            check_device(val, host, H1, k, want_creds, port)
        elif kind == "ok":
            if len(seen["un"]) != 1 or prm["cb"] == "none":
                raise Violation(f"discovery of the unsupported host {host} returned nothing; {len(seen['un'])} callbacks", "unsupported not reported")
        elif prm["cb"] == "fail" and len(seen["un"]) == 1 and "callback failed" in str(val):
            pass
        elif not isinstance(val, UnsupportedDeviceError) and cat == "unsupported":
            raise Violation(f"discovery of the unsupported host {host} ({k}) failed with {val!r}", "unsupported not reported")
        elif cat == "unsupported" and prm["cb"] in ("instant", "slow"):
            raise Violation(f"on_unsupported was given, but discovery raised {val!r}", "unsupported not reported")
        elif isinstance(val, KTimeout):
            raise Violation(f"{host} answered ({k or maybe.get(H1)}), but discovery says it timed out", "answer lost")
    elif H1 in unread:
        if kind != "error" or isinstance(val, KTimeout):
            raise Violation(f"{host} sent an unreadable answer, discovery gave {res!r}", "answer lost")
    elif kind != "error" or not isinstance(val, KTimeout):
        raise Violation(f"{host} did not answer, discovery gave {res!r}", "no timeout")


def check_device(dev, host, ip, k, want_creds, port):
    _c, _p, raw, fn, e = KINDS[k]
    c = dev.config
    got = dict(cls=type(dev).__name__, family=c.connection_type.device_family.value, enc=c.connection_type.encryption_type.value,
               lv=c.connection_type.login_version, https=c.connection_type.https, port=dev.port,
               proto=stack(dev)[0], transport=stack(dev)[1], model=dev.model)
    want = dict(e, port=port or e["port"])
    if got != want:
        raise Violation(f"{ip} replied {k}: the device is {got}, stated was {want}", "stated parameters")
    if dev.host != host or c.host != host or dev.protocol._transport._host not in (host, ip):
        raise Violation(f"the device of {host} has the host {dev.host}/{c.host}/{dev.protocol._transport._host}", "host")
    if c.credentials != want_creds or c.timeout != 7 or c.port_override != port:
        raise Violation(f"the device's config is {c}", "config")
    if dev.protocol.config is not c:
        raise Violation("device and protocol have different configurations", "config")
    doc = fn(ip)
    if "result" in doc:
        mac = doc["result"]["mac"].replace("-", ":")
        # http_port is stated, too
        if c.connection_type.http_port != doc["result"]["mgt_encrypt_schm"].get("http_port"):
            raise Violation(f"http port {c.connection_type.http_port}", "stated parameters")
    else:
        s = doc["system"]["get_sysinfo"]
        mac = s["mac"]
        if dev.alias != s["alias"]:
            raise Violation(f"{ip}: alias {dev.alias}, replied {s}", "device information")
    if dev.mac != mac:
        raise Violation(f"{ip}: mac {dev.mac}, replied {mac}", "device information")
    if k == "cam" and dev._discovery_info.get("decrypted_data") != {**SECRET, "n": num(ip)}:
        raise Violation(f"{ip}: decrypted data is {dev._discovery_info.get('decrypted_data')}", "encrypted part")


def check_sends(nw, prm, port, dur, log):
    """The queries: both kinds to the target, repeated, intact."""
    target = "255.255.255.255" if prm["mode"] == "broadcast" else H1
    ep = nw.udps[0]
    legacy_n = new_n = 0
    for data, addr in ep.sends:
        if addr == (target, port or 9999):
            if json.loads(unxor(data)) != {"system": {"get_sysinfo": {}}}:
                raise Violation(f"legacy query {data!r}", "query")
            legacy_n += 1
        elif addr == (target, 20002):
            head = struct.unpack(">BBHHBBII", data[:16])
            z = bytearray(data)
            z[12:16] = struct.pack(">I", 0x5A6B7C8D)
            doc = json.loads(data[16:])
            if head[:2] != (2, 0) or head[2] != 1 or head[3] != len(data) - 16 or head[7] != binascii.crc32(bytes(z)) or "BEGIN PUBLIC KEY" not in doc["params"]["rsa_key"]:
                raise Violation(f"new query {data!r}", "query")
            new_n += 1
        else:
            raise Violation(f"a query was sent to {addr}", "query target")
    if legacy_n != new_n or not legacy_n:
        raise Violation(f"{legacy_n} legacy and {new_n} new queries were sent", "query")
    if dur > 4.99 and not log and legacy_n != 3:
        raise Violation(f"{legacy_n} queries were sent in {dur} s", "query")
