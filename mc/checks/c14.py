"""C14: connecting never leaks connections and only yields usable devices."""

from __future__ import annotations

import asyncio
import json

from mc import core, net, servers, sess
from mc.core import Violation

core.install_datetime()

from mc import iotsim, sim  # noqa: E402

prepare = sess.prepare
BOUNDS = {
    "quick": "connect / try-all / discover-single+update on every transport kind against simulated recorded devices x own or supplied HTTP session x {no fault, one fault or a persistent failure of 12 kinds from exchange 0..N on} and cancellation at every step of the runs without and with persistent failures; wrong credentials; other ports refusing, answering 404 or silent",
    "thorough": "two independent faults (budget 2) besides, cancellation combined with each persistent failure, more devices per kind",
}
ASSUMPTIONS = ["the simulated peers are independent implementations of each transport (shared with C01-C07)"]
H = "10.1.1.7"
CREDS = sess.OWN
KINDS = {
    # name: (server kind, device data, device class)
    "xor": ("xor", ("iot", "HS100(UK)_4.1_1.1.0.json"), "IotPlug"),
    "xorstrip": ("xor", ("iot", "KP303(UK)_1.0_1.0.3.json"), "IotStrip"),
    "klap1-iot": ("klap1", ("iot", "HS100(UK)_4.1_1.1.0.json"), "IotPlug"),
    "klap2-smart": ("klap2", ("smart", "P100(US)_1.0.0_1.1.3.json"), "SmartDevice"),
    "klap2-https": ("klap2", ("smart", "RV30 Max(US)_1.0_1.2.0.json"), "SmartDevice"),
    "aes1": ("aes1", ("smart", "P100(US)_1.0.0_1.1.3.json"), "SmartDevice"),
    "aes2": ("aes2", ("smart", "P100(US)_1.0.0_1.4.0.json"), "SmartDevice"),
    "cam": ("cam", ("smartcam", "C100_4.0_1.3.14.json"), "SmartCamDevice"),
    "cam-plain": ("camplain", ("smartcam", "C100_4.0_1.3.14.json"), "SmartCamDevice"),
    "token": ("token", ("smart", "RV20 Max Plus(EU)_1.0_1.0.7.json"), "SmartDevice"),
}
STACKS = {"xor": ("IotProtocol", "XorTransport"), "klap1": ("IotProtocol", "KlapTransport"), "klap2": ("SmartProtocol", "KlapTransportV2"),
          "aes1": ("SmartProtocol", "AesTransport"), "aes2": ("SmartProtocol", "AesTransport"), "cam": ("SmartCamProtocol", "SslAesTransport"),
          "camplain": ("SmartCamProtocol", "SslAesTransport"), "token": ("SmartProtocol", "SslTransport")}
HTTP_F = ["refused", "disc", "hang", "lost", "oserr", "payload", "ssl", "s403", "s500", "garbage", "empty", "resnull", "weird", "clienterr"]
TCP_F = ["refused", "hang", "unreach", "reset", "weird", "eof", "garbage"]
STEPS = {"xor": 4, "xorstrip": 5}


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for k in KINDS:
        own = [True] if KINDS[k][0] == "xor" else [True, False]
        fl = TCP_F if KINDS[k][0] == "xor" else HTTP_F
        for s in own:
            for creds in (("ok", "wrong", "none") if KINDS[k][0] != "xor" else ("ok",)):
                out.append(dict(op="connect", kind=k, own=s, creds=creds))
            out.append(dict(op="connect", kind=k, own=s, creds="ok", cancel=1, budget=1))
            for f in fl:
                for n in ((1, 2, 99) if deep else (1, 99)):
                    out.append(dict(op="connect", kind=k, own=s, creds="ok", fault=f, count=n))
                if deep or f in ("hang", "refused", "s500", "reset"):
                    out.append(dict(op="connect", kind=k, own=s, creds="ok", fault=f, count=99, cancel=1, budget=1))
        out.append(dict(op="connect", kind=k, own=False, creds="ok", app="fail"))
        out.append(dict(op="connect", kind=k, own=False, creds="ok", app="silent"))
        out.append(dict(op="connect", kind=k, own=False, creds="ok", app="odd"))
        for others in ("refuse", "404", "hang"):
            out.append(dict(op="tryall", kind=k, own=True, creds="ok", others=others))
            out.append(dict(op="tryall", kind=k, own=False, creds="ok", others=others))
        out.append(dict(op="tryall", kind=k, own=True, creds="wrong", others="404"))
        out.append(dict(op="tryall", kind=k, own=True, creds="ok", others="refuse", app="fail"))
        for s in own:
            out.append(dict(op="tryall", kind=k, own=s, creds="ok", others="404", cancel=1, budget=1))
            for f in (fl if deep else ["hang", "s403", "reset", "garbage"]):
                if f in fl:
                    out += [dict(op="tryall", kind=k, own=s, creds="ok", others="404", fault=f, count=n) for n in (1, 99)]
        if KINDS[k][0] not in ("aes1", "camplain"):
            out.append(dict(op="single", kind=k, own=True, creds="ok", cancel=1, budget=1))
        if deep:
            out.append(dict(op="connect", kind=k, own=True, creds="ok", faults=fl, budget=2))
    out.append(dict(op="tryall", kind=None, own=True, creds="ok", others="refuse"))
    out.append(dict(op="tryall", kind=None, own=False, creds="ok", others="404", cancel=1, budget=1))
    out += [dict(op="unsupported", fam=f, enc=e, https=h) for f in ("IOT.SMARTPLUGSWITCH", "IOT.SMARTBULB", "IOT.IPCAMERA", "SMART.TAPOPLUG", "SMART.TAPOHUB")
            for e in ("KLAP", "AES", "XOR") for h in (False, True)]
    return out


class Front:
    """One port of the device: hands over what the service understands, 404 for the rest."""

    def __init__(self, srv, understands):
        self.srv, self.understands = srv, understands

    def handle(self, req):
        if self.srv is None or not self.understands(req):
            return net.HttpResp(404, b"not found")
        return self.srv.handle(req)

    def on_delivered(self, req, resp):
        if hasattr(self.srv, "on_delivered"):
            self.srv.on_delivered(req, resp)


def body(req):
    try:
        return json.loads(req.body)
    except Exception:  # noqa: BLE001
        return {}


UNDERSTANDS = {
    "klap1": lambda r: "/app/" in r.path, "klap2": lambda r: "/app/" in r.path,
    "aes1": lambda r: r.path == "/app" and body(r).get("method") in ("handshake", "securePassthrough"),
    "cam": lambda r: body(r).get("method") == "login" and "cnonce" in str(body(r)) or "/stok=" in r.path or "hashed" in str(body(r)),
    "token": lambda r: r.path == "/app" and "password" in str(body(r)) or "token" in r.query,
}
UNDERSTANDS["aes2"] = UNDERSTANDS["aes1"]
UNDERSTANDS["camplain"] = UNDERSTANDS["cam"]


def make_sim(kind):
    fam, name = KINDS[kind][1]
    if fam == "iot":
        return iotsim.IotSim.fixture(name)
    return (sim.CamSim if fam == "smartcam" else sim.SmartSim).fixture(name)


def peer(nw, kind, app, creds):
    sk = KINDS[kind][0]
    port = 4433 if kind == "klap2-https" else sess.PORTS[sk]
    if sk == "xor":
        nw.tcp[(H, port)] = sess.XorEcho(nw, app)
        return nw.tcp[(H, port)]
    if sk.startswith("klap"):
        srv = servers.KlapServer(nw, app, int(sk[4]), creds, H)
    elif sk.startswith("aes"):
        srv = servers.AesServer(nw, app, int(sk[3]), creds, H)
    elif sk == "cam":
        srv = servers.CamServer(nw, app, creds, host=H)
    elif sk == "camplain":
        srv = servers.CamServer(nw, app, creds, hash_kind="md5", mode="insecure", host=H)
    else:
        srv = servers.TokenServer(nw, app, creds, H)
    nw.http[(H, port)] = Front(srv, UNDERSTANDS[sk])
    return srv


def config(kind, creds, http_client):
    from kasa import Credentials, DeviceConfig
    from kasa.deviceconfig import DeviceConnectionParameters, DeviceEncryptionType as E, DeviceFamily as F
    sk, (fam, _n), _c = KINDS[kind]
    family = {"iot": F.IotSmartPlugSwitch, "smart": F.SmartTapoPlug, "smartcam": F.SmartIpCamera}[fam]
    if kind in ("token", "klap2-https"):
        family = F.SmartTapoRobovac
    enc = {"x": E.Xor, "k": E.Klap, "a": E.Aes, "c": E.Aes, "t": E.Aes}[sk[0]]
    ct = DeviceConnectionParameters(family, enc, login_version=2 if sk in ("aes2", "klap2") else None, https=sk in ("cam", "camplain", "token") or kind == "klap2-https")
    return DeviceConfig(H, timeout=5, credentials=Credentials(*creds) if creds else None, connection_type=ct, http_client=http_client)


class World:
    def __init__(self, ctx, loop, prm):
        self.ctx, self.loop, self.prm = ctx, loop, prm
        self.nw = net.Net(loop, ctx)
        self.executed = 0
        self.quiet = False
        kind = prm["kind"]
        self.sim = make_sim(kind) if kind else None
        if kind:
            self.peer = peer(self.nw, kind, self.app, CREDS)
            if isinstance(self.peer, servers.AesServer | servers.TokenServer) and prm["op"] != "tryall":
                self.peer.client_creds = self.client_creds()
        self.stage = 0
        if prm.get("fault"):
            self.start = ctx.pick(range(12 if prm["op"] == "connect" else 16), "fails from exchange")
            self.nw.force = self.force
        if prm.get("faults"):
            self.nw.http_faults = prm["faults"]
            self.nw.connect_faults = [f for f in prm["faults"] if f in net.CONNECT_FAULTS or f == "hang"]
        if prm.get("others"):
            for p in (80, 443, 4433, 10443, 8080):
                if (H, p) not in self.nw.http:
                    if prm["others"] == "404":
                        self.nw.http[(H, p)] = Front(None, None)
                    elif prm["others"] == "hang":
                        self.nw.http[(H, p)] = Silent()
        self.injected = 0

    def client_creds(self):
        c = self.prm["creds"]
        return {"ok": CREDS, "wrong": sess.OTHER, "none": None}[c]

    def force(self, stage, names):
        if self.quiet:
            return None
        i = self.stage
        self.stage += 1
        if self.start <= i < self.start + self.prm["count"] and self.prm["fault"] in names:
            self.injected += 1
            return self.prm["fault"]
        return None

    def app(self, req):
        a = self.prm.get("app")
        if not self.quiet and a == "silent":
            return None
        if not self.quiet and a == "fail":
            if "method" in req:
                return {"error_code": -1001}
            return {s: {c: {"err_code": -3, "err_msg": "no"} for c in (v or {})} for s, v in req.items() if s != "context"}
        if not self.quiet and a == "odd":
            if req.get("method") == "multipleRequest":
                return {"error_code": 0, "result": {"responses": []}}
            return {"error_code": 0, "result": {}} if "method" in req else {}
        self.executed += 1
        return self.sim.answer(req)

    def open_things(self, shared=None):
        out = [f"HTTP session {i}" for i, s in enumerate(self.nw.sessions) if not s.closed and s is not shared]
        out += [f"connection {c.id}" for c in self.nw.open_conns()]
        out += [f"UDP socket {i}" for i, u in enumerate(self.nw.udps) if not u.closed]
        return out


class Silent:
    def handle(self, req):
        return None


def run(ctx, prm):
    import aiohttp
    from kasa import Credentials, Device, Discover, KasaException
    from kasa.httpclient import get_cookie_jar

    if prm["op"] == "unsupported":
        return unsupported(ctx, prm)

    async def main(loop):
        w = World(ctx, loop, prm)
        loop.cancel_budget = prm.get("cancel", 0)
        shared = None if prm["own"] else aiohttp.ClientSession(cookie_jar=get_cookie_jar())
        attempts = []
        creds = w.client_creds()
        op = prm["op"]
        cfg = config(prm["kind"], creds, shared) if prm["kind"] else None
        if op == "connect":
            coro = Device.connect(config=cfg)
        elif op == "tryall":
            coro = Discover.try_connect_all(H, credentials=Credentials(*creds), http_client=shared, timeout=5, on_attempt=lambda a, ok: attempts.append((a, ok)))
        else:
            coro = single(w, loop, creds)
        task = loop.create_task(coro)
        loop.cancellable(op, task)
        dev = err = None
        try:
            dev = await task
            res = "device" if dev is not None else "none"
        except asyncio.CancelledError:
            res = "cancelled"
            if loop.cancel_budget == prm.get("cancel", 0):
                raise Violation("the call was cancelled by nobody", "spurious cancel") from None
        except Exception as ex:  # noqa: BLE001
            res, err = type(ex).__name__, ex
        ctx.obs.append((res,))
        ctx.note("result", res, str(err)[:80])
        if err is not None and (op == "tryall" or not isinstance(err, KasaException) and prm.get("app") != "odd"):
            raise Violation(f"{op} raised {err!r}", "unexpected error")
        # let closing connections finish
        await asyncio.sleep(0)
        if shared is not None and shared.closed:
            raise Violation(f"{op} closed the caller's HTTP session", "caller session closed")
        left = w.open_things(shared)
        if dev is None and left:
            raise Violation(f"{op} ended with {res}, still open: {left}", "connection leaked")
        faultless = not prm.get("fault") and not prm.get("faults") and not prm.get("app")
        if dev is None:
            if faultless and prm["creds"] == "ok" and res != "cancelled" and prm["kind"]:
                raise Violation(f"{op} ended with {res} {err!r} although the device answers", "device not found")
            if op == "tryall":
                check_attempts(attempts, None)
            return res
        w.quiet = True
        w.nw.http_faults, w.nw.connect_faults = [], []
        loop.cancel_budget = 0
        await check_device(w, prm, dev, cfg, op, attempts, shared, creds)
        return res

    return core.run_loop(ctx, main)


async def single(w, loop, creds):
    """Discovery of the host, then the first update; closed by the user when that fails."""
    from kasa import Credentials, Discover
    from mc.checks import c13
    prm = w.prm
    kind = prm["kind"]
    if KINDS[kind][0] == "xor":
        data = c13.xor(json.dumps({"system": {"get_sysinfo": w.sim.sysinfo()}}).encode())
        addr = (H, 9999)
    else:
        ct = config(kind, creds, None).connection_type
        port = 4433 if kind in ("token", "klap2-https") else None
        data = c13.HDR + json.dumps(c13.new(H, ct.device_family.value, ct.encryption_type.value, https=ct.https, port=port, lv=ct.login_version)).encode()
        addr = (H, 20002)

    loop.call_later(0.5, lambda: w.nw.udps and w.nw.udps[0].deliver(data, addr))
    dev = await Discover.discover_single(H, credentials=Credentials(*creds), timeout=5)
    try:
        await dev.update()
    except BaseException:
        await dev.disconnect()
        raise
    return dev


def check_attempts(attempts, dev):
    oks = [i for i, (_a, ok) in enumerate(attempts) if ok]
    if oks != ([len(attempts) - 1] if dev is not None else []):
        raise Violation(f"attempts reported: {attempts}", "attempt callback")
    seen = set()
    for a, _ok in attempts:
        key = (a.protocol, a.transport, a.device, a.https)
        seen.add(key)
    return seen


async def check_device(w, prm, dev, cfg, op, attempts, shared, creds):
    kind = prm["kind"]
    if kind is None:
        raise Violation(f"{dev!r} was returned although nothing answers", "device from nowhere")
    if prm["creds"] == "wrong" and kind[:3] != "xor":
        raise Violation(f"{dev!r} was returned although the device rejects the credentials", "unusable device")
    stack = (type(dev.protocol).__name__, type(dev.protocol._transport).__name__)
    cls = KINDS[kind][2]
    if stack != STACKS[KINDS[kind][0]] or (op != "single" and type(dev).__name__ != cls):
        raise Violation(f"{kind}: the device is a {type(dev).__name__} over {stack}", "device kind")
    if w.executed == 0:
        raise Violation("the returned device has not been asked anything", "unverified device")
    if prm.get("app"):
        # it answered nothing useful, yet a device was returned
        if prm["app"] in ("fail", "silent"):
            raise Violation(f"{dev!r} was returned although every query failed", "unusable device")
    if op == "connect" and (dev.config != cfg or dev.config.host != H):
        raise Violation(f"the device has another configuration: {dev.config}", "configuration")
    if op == "tryall":
        check_attempts(attempts, dev)
        c = dev.config
        if c.host != H or c.credentials is None or (c.credentials.username, c.credentials.password) != creds or c.http_client is not shared:
            raise Violation(f"the device has the configuration {c}", "configuration")
    # only this device may hold something
    await dev.disconnect()
    await asyncio.sleep(0)
    if left := w.open_things(shared):
        raise Violation(f"after disconnecting the returned device: open {left}", "connection leaked")
    await dev.disconnect()
    if prm.get("app") == "odd":
        return
    # usable with its configuration: again, and by a new connection
    n = w.executed
    await dev.update()
    if w.executed == n:
        raise Violation("update() of the returned device did not reach it", "unusable device")
    if dev.model is None or dev.device_id is None:
        raise Violation("the returned device has no data", "unusable device")
    await dev.disconnect()
    await asyncio.sleep(0)
    from kasa import Device
    dev2 = await Device.connect(config=dev.config)
    if type(dev2) is not type(dev) and op != "single":
        raise Violation(f"connecting with the device's configuration gives a {type(dev2).__name__}", "configuration")
    if dev2.device_id != dev.device_id:
        raise Violation("another device", "configuration")
    await dev2.disconnect()
    await dev2.disconnect()
    await asyncio.sleep(0)
    if left := w.open_things(shared):
        raise Violation(f"after disconnecting: open {left}", "connection leaked")
    if shared is not None and shared.closed:
        raise Violation("disconnect() closed the caller's HTTP session", "caller session closed")


def unsupported(ctx, prm):
    """Kinds without an implementation are refused without opening anything."""
    from kasa import Device, DeviceConfig, UnsupportedDeviceError
    from kasa.deviceconfig import DeviceConnectionParameters
    from mc.checks import c15

    async def main(loop):
        nw = net.Net(loop, ctx)
        doc = c15.documented(prm["fam"], prm["enc"], prm["https"], False)
        cls = c15.documented_class(prm["fam"], prm["https"])
        if doc is not None and (cls is not None or doc[1] == "XorTransport"):
            return "supported"
        ct = DeviceConnectionParameters.from_values(prm["fam"], prm["enc"], https=prm["https"])
        try:
            dev = await Device.connect(config=DeviceConfig(H, connection_type=ct))
        except UnsupportedDeviceError:
            pass
        else:
            raise Violation(f"connecting to {prm} gave {dev!r}", "unsupported kind")
        if nw.http_log or nw.conns or any(not s.closed for s in nw.sessions):
            raise Violation(f"connecting to the unsupported {prm} opened connections", "connection leaked")
        return "unsupported"

    return core.run_loop(ctx, main)
