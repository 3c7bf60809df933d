"""Stacks (protocol + transport + independent peer) and the common history driver."""

from __future__ import annotations

import asyncio
import json
import struct

from . import core, net as netmod, servers
from .core import Violation

OWN = ("user@example.com", "s3cr3t-Pässwörd")
OTHER = ("someone@else.org", "other-password")
DEFAULTS = {
    "kasa": ("kasa@tp-link.net", "kasaSetup"),
    "tapo": ("test@tp-link.net", "test"),
    "blank": ("", ""),
    "cam": ("admin", "admin"),
}


def prepare():
    netmod.install_http()
    servers.install_rsa_cache()
    servers.install_iv_override()


class XorEcho:
    """Minimal legacy TCP device."""

    max_inflight = 0

    def __init__(self, net, app):
        self.net, self.app = net, app
        self.buf = {}
        self.apps = []
        self.inflight = {}

    def accepted(self, conn):
        self.buf[conn.id] = b""

    def data(self, conn, data):
        self.buf[conn.id] += data
        b = self.buf[conn.id]
        if len(b) < 4:
            return
        (ln,) = struct.unpack(">I", b[:4])
        if len(b) > 4 + ln:
            raise Violation("more bytes than one frame written before the reply", "frame")
        if len(b) < 4 + ln:
            return
        self.buf[conn.id] = b""
        if self.inflight.get(conn.id):
            raise Violation("two requests outstanding on one connection", "overlap")
        live = sum(1 for c in self.net.open_conns() if self.inflight.get(c.id))
        self.max_inflight = max(self.max_inflight, live + 1)
        req = json.loads(servers.LinkieServer.dec(b[4:]).decode())
        self.inflight[conn.id] = True
        self.apps.append(req)
        self.net.ctx.note("srv<", conn.id, sorted(req))
        ans = self.app(req)

        def ok():
            self.inflight[conn.id] = False
            body = json.dumps(ans).encode()
            conn.deliver(struct.pack(">I", len(body)) + servers.LinkieServer.enc(body))

        table = {
            "eof": conn.eof, "reset": conn.reset, "hang": lambda: None,
            "garbage": lambda: conn.deliver(struct.pack(">I", 3) + b"\x01\x02\x03"),
        }
        outs = [("ok", ok)] if ans is not None else [("hang", lambda: None)]
        for f in self.net.http_faults:
            if f in table and ans is not None:
                outs.append((f, table[f]))
        forced = self.net.force and self.net.force("reply", list(table))
        if forced:
            outs = [(forced, table[forced])]

        def logged(name, fn):
            def f():
                self.net.fault_log.append((name, "reply"))
                return fn()
            return f

        self.net.loop.post(f"c{conn.id} reply", *[(nm, logged(nm, fn)) for nm, fn in outs])


def echo_app(req):
    """Answers echo queries of every protocol family."""
    m = req.get("method")
    if m == "multipleRequest":
        return {"error_code": 0, "result": {"responses": [
            {"method": r["method"], **echo_one(r)} for r in req["params"]["requests"]]}}
    if m == "control_child":
        inner = req["params"]["requestData"]
        if inner["method"] == "multipleRequest":
            rd = {"error_code": 0, "result": {"responses": [
                {"method": r["method"], **echo_one(r)} for r in inner["params"]["requests"]]}}
        else:
            rd = echo_one(inner)
        if isinstance(rd.get("result"), dict) and "tag" in rd["result"]:
            rd["result"]["child"] = req["params"]["device_id"]
        return {"error_code": 0, "result": {"responseData": rd}}
    if m is None:
        out = {}
        for mod, v in req.items():
            if mod == "context":
                continue
            out[mod] = {k: {"echo": a.get("tag"), **({"ctx": req["context"]["child_ids"]} if "context" in req else {})} for k, a in v.items()}
        return out
    return echo_one(req)


def echo_one(r):
    p = r.get("params") or {}
    if r["method"].startswith("get"):
        return {"error_code": 0, "result": p}
    return {"error_code": 0}


KINDS = {
    # name: (server kind, protocol family)
    "xor": ("xor", "iot"),
    "klap1-iot": ("klap1", "iot"),
    "klap2-iot": ("klap2", "iot"),
    "klap2-smart": ("klap2", "smart"),
    "klap2-https": ("klap2", "smart"),
    "aes1": ("aes1", "smart"),
    "aes2": ("aes2", "smart"),
    "cam": ("cam", "cam"),
    "cam-md5": ("cammd5", "cam"),
    "cam-plain": ("camplain", "cam"),
    "token": ("token", "smart"),
    "linkie": ("linkie", "iot"),
}
PORTS = {"xor": 9999, "klap1": 80, "klap2": 80, "aes1": 80, "aes2": 80, "cam": 443, "cammd5": 443, "camplain": 443,
         "token": 4433, "linkie": 10443}


class Stack:
    def __init__(self, n, kind, creds=OWN, dev_creds=None, host="h", http_client=None, chash=None, app=echo_app, timeout=5):
        from kasa import Credentials, DeviceConfig
        from kasa.deviceconfig import DeviceConnectionParameters, DeviceEncryptionType, DeviceFamily
        from kasa.protocols import IotProtocol, SmartCamProtocol, SmartProtocol
        from kasa.transports import AesTransport, KlapTransport, KlapTransportV2, LinkieTransportV2, SslAesTransport, SslTransport, XorTransport

        self.net, self.kind, self.host = n, kind, host
        sk, fam = KINDS[kind]
        self.fam = fam
        dev_creds = dev_creds or creds or OWN
        port = PORTS[sk]
        https = kind == "klap2-https" or sk in ("cam", "cammd5", "camplain", "token", "linkie")
        if kind == "klap2-https":
            port = 4433
        if sk == "xor":
            self.server = XorEcho(n, app)
            n.tcp[(host, port)] = self.server
        elif sk.startswith("klap"):
            self.server = servers.KlapServer(n, app, int(sk[4]), dev_creds, host)
        elif sk.startswith("aes"):
            self.server = servers.AesServer(n, app, int(sk[3]), dev_creds, host)
        elif sk == "cam":
            self.server = servers.CamServer(n, app, dev_creds, host=host)
        elif sk == "cammd5":
            self.server = servers.CamServer(n, app, dev_creds, hash_kind="md5", host=host)
        elif sk == "camplain":
            self.server = servers.CamServer(n, app, dev_creds, hash_kind="md5", mode="insecure", host=host)
        elif sk == "token":
            self.server = servers.TokenServer(n, app, dev_creds, host)
        elif sk == "linkie":
            self.server = servers.LinkieServer(n, app, host)
        if sk != "xor":
            n.http[(host, port)] = self.server
        famly = {"iot": DeviceFamily.IotSmartPlugSwitch, "smart": DeviceFamily.SmartTapoPlug, "cam": DeviceFamily.SmartIpCamera}[fam]
        if sk == "token":
            famly = DeviceFamily.SmartTapoRobovac
        enc = {"x": DeviceEncryptionType.Xor, "k": DeviceEncryptionType.Klap, "a": DeviceEncryptionType.Aes,
               "c": DeviceEncryptionType.Aes, "t": DeviceEncryptionType.Aes, "l": DeviceEncryptionType.Xor}[sk[0]]
        ct = DeviceConnectionParameters(famly, enc, login_version=2 if sk in ("aes2", "klap2") else None, https=https)
        self.config = DeviceConfig(host, timeout=timeout, credentials=Credentials(*creds) if creds is not None else None,
                                   credentials_hash=chash, connection_type=ct, http_client=http_client)
        tcls = {"xor": XorTransport, "klap1": KlapTransport, "klap2": KlapTransportV2, "aes1": AesTransport, "aes2": AesTransport,
                "cam": SslAesTransport, "cammd5": SslAesTransport, "camplain": SslAesTransport, "token": SslTransport, "linkie": LinkieTransportV2}[sk]
        pcls = {"iot": IotProtocol, "smart": SmartProtocol, "cam": SmartCamProtocol}[fam]
        self.transport = tcls(config=self.config)
        self.proto = pcls(transport=self.transport)

    def query_for(self, tag):
        if self.fam == "iot":
            return {"t": {"q": {"tag": tag}}}, {"t": {"q": {"echo": tag}}}
        if self.fam == "cam":
            return {"getEcho": {"echo": {"tag": tag}}}, {"getEcho": {"echo": {"tag": tag}}}
        return {"get_echo": {"tag": tag}}, {"get_echo": {"tag": tag}}


def run_query(ctx, loop, stack, i, retry, outcome, cancel=False):
    """Coroutine: one query with full checking of its outcome. Returns 'ok' | exception name."""

    async def go():
        from kasa import KasaException

        q, want = stack.query_for(i)
        task = loop.create_task(stack.proto.query(q, retry_count=retry))
        if cancel:
            loop.cancellable(f"q{i}", task)
        try:
            res = await task
        except asyncio.CancelledError:
            if not cancel:
                raise Violation(f"query {i} was cancelled by nobody", "spurious cancel") from None
            ctx.note("result", i, "cancelled")
            outcome.append("cancel")
            return "cancel", None
        except KasaException as ex:
            ctx.note("result", i, type(ex).__name__)
            outcome.append(type(ex).__name__)
            return type(ex).__name__, ex
        except Violation:
            raise
        except Exception as ex:
            raise Violation(f"query {i} raised {type(ex).__name__}: {ex} (not a library exception)", f"raised {type(ex).__name__}") from ex
        if res != want:
            raise Violation(f"query {i} returned {res!r}, the device answered {want!r}", "wrong reply")
        ctx.note("result", i, "ok")
        outcome.append("ok")
        return "ok", res

    return go()


def child_wrapper(cam):
    """The class which sends the requests of one child through its parent."""
    import importlib
    mod = importlib.import_module("kasa.protocols.smartcamprotocol" if cam else "kasa.protocols.smartprotocol")
    return next(v for v in vars(mod).values() if isinstance(v, type) and v.__module__ == mod.__name__ and "child" in v.__name__.lower())
