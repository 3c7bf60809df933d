"""C01: legacy TCP request/response pairing under every fault, split and cancellation."""

from __future__ import annotations

import asyncio
import json
import struct

from mc import core, net
from mc.core import Violation

BOUNDS = {
    "quick": "2-3 queries with 4 deviations (faults x every I/O point, cancellations, timer races, splits), retry counts 0-1; every 2-way split of every frame; 9 payload shapes",
    "thorough": "3 queries with 4 deviations, retry counts 0-2, paused writes, all split pairs",
}
ASSUMPTIONS = [
    "the peer never sends unsolicited bytes after a complete frame",
    "event-loop ready queue is FIFO (as in asyncio); all nondeterminism is in I/O completion, timers and cancellation",
]


def prepare():
    net.install_http()


_PURE = None


def pure_module():
    """The transport module loaded without the optional C accelerator."""
    global _PURE
    if _PURE is None:
        import importlib.util
        import sys

        import kasa.transports.xortransport as x
        saved = sys.modules.get("kasa_crypt", 0)
        sys.modules["kasa_crypt"] = None
        try:
            spec = importlib.util.spec_from_file_location("kasa.transports._xorpure", x.__file__)
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
        finally:
            if saved == 0:
                del sys.modules["kasa_crypt"]
            else:
                sys.modules["kasa_crypt"] = saved
        _PURE = m
    return _PURE


def xor_enc(b):
    k = 171
    out = bytearray()
    for x in b:
        k ^= x
        out.append(k)
    return bytes(out)


def xor_dec(b):
    k = 171
    out = bytearray()
    for x in b:
        out.append(k ^ x)
        k = x
    return bytes(out)


PAYLOADS = [
    {"echo": None},
    {"echo": None, "alias": "Büro – 東京 \U0001f4a1"},
    {"echo": None, "pad": "x" * 300},
    {"echo": None, "nested": {"a": [1, 2.5, None, True, {"b": "c"}], "e": {}}},
    {"echo": None, "pad": "y" * 70000},
    {"echo": None, "ctl": "\x01\x1f\"\\/\x7f\u0080\u00ff"},
    {"echo": None, "neg": -2147483649, "big": 9007199254740993},
    {},
    {"echo": None, "err_code": -1, "err_msg": "module not support"},
]
REQ_EXTRA = [{}, {"alias": "Büro – 東京"}, {"pad": "z" * 5000}, {"ctl": "\x01\"\\\u00ff"}]


class XorServer:
    """Independent legacy device: strict framing, answers each request by tag."""

    def __init__(self, n, params):
        self.net = n
        self.loop = n.loop
        self.ctx = n.ctx
        self.params = params
        self.inflight = {}
        self.requests = []
        self.buf = {}
        self.payload = params.get("payload", 0)
        self.healthy = False

    def accepted(self, conn):
        self.buf[conn.id] = b""

    def data(self, conn, data):
        self.buf[conn.id] += data
        b = self.buf[conn.id]
        if len(b) < 4:
            return
        (ln,) = struct.unpack(">I", b[:4])
        if len(b) > 4 + ln:
            raise Violation("more bytes than one frame written before the reply", "frame")
        if len(b) < 4 + ln:
            return
        self.buf[conn.id] = b""
        if self.inflight.get(conn.id):
            raise Violation("a second request was sent on a connection with an unfinished exchange", "reuse")
        try:
            req = json.loads(xor_dec(b[4:]).decode())
        except Exception as ex:
            raise Violation(f"device received an undecodable request: {ex}", "badrequest") from ex
        self.inflight[conn.id] = True
        self.requests.append(req)
        tag = req["t"]["q"]["tag"]
        self.ctx.note("srv<", conn.id, tag)
        body = dict(PAYLOADS[self.payload])
        if "echo" in body:
            body["echo"] = tag
        reply = {"t": {"q": body}}
        frame = json.dumps(reply, ensure_ascii=(self.payload % 2 == 0)).encode()
        frame = struct.pack(">I", len(frame)) + xor_enc(frame)
        self.post(conn, frame, 0, first=True)

    def done(self, conn):
        self.inflight[conn.id] = False

    def post(self, conn, frame, off, first=False):
        rest = frame[off:]

        def full():
            self.done(conn)
            conn.deliver(rest)

        def bad(payload):
            def f():
                self.done(conn)
                conn.deliver(payload)
            return f

        if self.healthy:
            self.loop.post(f"c{conn.id} reply", ("full", full))
            return
        outs = [("full", full), ("eof", conn.eof), ("reset", conn.reset), ("hang", lambda: None)]
        if first:
            g = xor_enc(b"not json {")
            outs.append(("garbage", bad(struct.pack(">I", len(g)) + g)))
            if self.params.get("rich"):
                u = bytes([0xff, 0xfe, 0xfd])
                outs.append(("badutf8", bad(struct.pack(">I", 3) + u)))
                outs.append(("zerolen", bad(struct.pack(">I", 0))))
                outs.append(("short", bad(struct.pack(">I", len(frame)) + frame[4:len(frame) // 2])))
        pts = sorted({1, 3, 4, 5, len(frame) // 2, len(frame) - 1})
        if self.params.get("splits") == "all":
            pts = range(1, len(frame))
        elif self.params.get("splits") == "some":
            pts = sorted({2, 4, len(frame) - 1})
        for p in pts:
            if off < p < len(frame):
                outs.append((f"split{p}", lambda p=p: (conn.deliver(frame[off:p]), self.post(conn, frame, p))))
        self.loop.post(f"c{conn.id} reply", *outs)


def scenarios(tier):
    out = []
    th = tier == "thorough"
    # codec / framing: every payload, every split
    for p in range(len(PAYLOADS)):
        big = p == 4
        out.append(dict(name="codec", nq=1, retry=0, budget=0 if big else (2 if th and p in (0, 7) else 1), payload=p,
                        splits="some" if big else "all", extra=p % len(REQ_EXTRA), cancel=0, race=False))
        out.append(dict(name="codec2", nq=2, retry=1, budget=1, payload=p, splits="some", extra=(p + 1) % len(REQ_EXTRA), cancel=0, race=False, rich=True))
    # the same without the optional C cipher
    for p in range(len(PAYLOADS)):
        out.append(dict(name="codec", nq=2, retry=0, budget=0 if p == 4 else 1, payload=p, splits="some", extra=(p + 1) % len(REQ_EXTRA), cancel=0, race=False, pure=True))
    for retry in (0, 1):
        out.append(dict(name="hist", nq=2, retry=retry, budget=3, payload=0, splits="std", cancel=2, race=True, rich=True))
        out.append(dict(name="hist", nq=3, retry=retry, budget=3, payload=0, splits="some", cancel=2, race=True))
        out.append(dict(name="paused", nq=2, retry=retry, budget=2, payload=0, splits="some", cancel=2, race=True, paused=True))
        out.append(dict(name="raw", nq=2, retry=0, budget=2, payload=0, splits="some", cancel=2, race=True, raw=True))
    if th:
        for retry in (0, 1, 2):
            out.append(dict(name="hist", nq=3, retry=retry, budget=4, payload=0, splits="some", cancel=2, race=True, rich=True))
            out.append(dict(name="paused", nq=2, retry=retry, budget=3, payload=0, splits="std", cancel=2, race=True, paused=True))
    return out


def run(ctx, params):
    from kasa import DeviceConfig, KasaException
    from kasa.protocols import IotProtocol
    from kasa.transports import XorTransport

    outcome = []

    async def main(loop):
        n = net.Net(loop, ctx)
        srv = XorServer(n, params)
        n.tcp[("h", 9999)] = srv
        n.connect_faults = ["refused", "unreach", "reset", "hang", "weird"] if params["race"] else []
        n.pause_writes = bool(params.get("paused"))
        loop.timer_race = params["race"]
        loop.cancel_budget = params["cancel"]
        loop.reorder = params["race"]
        cls = pure_module().XorTransport if params.get("pure") else XorTransport
        transport = cls(config=DeviceConfig("h"))
        proto = IotProtocol(transport=transport)
        extra = REQ_EXTRA[params.get("extra", 0)]
        for i in range(params["nq"]):
            query = {"t": {"q": {"tag": i, **extra}}}
            if params.get("raw"):
                coro = transport.send(json.dumps(query))
            else:
                coro = proto.query(query, retry_count=params["retry"])
            task = loop.create_task(coro)
            loop.cancellable(f"q{i}", task)
            before = len(srv.requests)
            try:
                res = await task
            except asyncio.CancelledError:
                ctx.note("result", i, "cancelled")
                outcome.append("cancel")
                res = None
            except KasaException as ex:
                ctx.note("result", i, type(ex).__name__)
                outcome.append(type(ex).__name__)
                res = None
            except BaseException as ex:
                if isinstance(ex, Violation | core.Hang):
                    raise
                raise Violation(f"query {i} raised {type(ex).__name__}: {ex}", "exception kind") from ex
            else:
                want = dict(PAYLOADS[params["payload"]])
                if "echo" in want:
                    want["echo"] = i
                want = {"t": {"q": want}}
                if res != want:
                    raise Violation(f"query {i} returned {str(res)[:300]} but the device answered {str(want)[:300]}", "stale or wrong reply")
                if len(srv.requests) == before:
                    raise Violation(f"query {i} returned without the device receiving it", "no request")
                outcome.append("ok")
                ctx.note("result", i, "ok")
            for r in srv.requests[before:]:
                if r != query:
                    raise Violation(f"device received {str(r)[:200]} instead of {str(query)[:200]}", "request altered")
            await asyncio.sleep(0)
            if res is None:
                bad = n.open_conns()
                if bad:
                    raise Violation(f"query {i} failed but connection {[c.id for c in bad]} was left open", "left open")
            elif len(n.open_conns()) > 1:
                raise Violation("more than one connection open after a query", "leak")
        # a final query to a healthy device
        loop.cancel_budget = 0
        loop.timer_race = loop.reorder = False
        n.connect_faults = []
        srv.healthy = True
        query = {"t": {"q": {"tag": 99}}}
        want = dict(PAYLOADS[params["payload"]])
        if "echo" in want:
            want["echo"] = 99
        try:
            res = await (transport.send(json.dumps(query)) if params.get("raw") else proto.query(query))
        except Exception as ex:
            raise Violation(f"query to a healthy device failed after the history: {type(ex).__name__}: {ex}", "no recovery") from ex
        if res != {"t": {"q": want}}:
            raise Violation(f"final query returned {str(res)[:300]}", "stale or wrong reply")
        await proto.close()
        await asyncio.sleep(0)
        if n.open_conns():
            raise Violation("connection still open after close", "leak after close")
        return tuple(outcome)

    return core.run_loop(ctx, main)
