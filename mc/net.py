"""Simulated network under the virtual loop: TCP, UDP and HTTP (aiohttp level)."""

from __future__ import annotations

import asyncio
import errno
import json as _json
from http.cookies import SimpleCookie
from types import SimpleNamespace

import aiohttp
from multidict import CIMultiDict
from yarl import URL

from . import core


class FakeSocket:
    def __init__(self):
        self.opts = []
        self.family = 2

    def setsockopt(self, *a):
        self.opts.append(a)

    def getsockname(self):
        return ("10.0.0.1", 50000)

    def fileno(self):
        return -1

    def close(self):
        pass


class TcpConn(asyncio.Transport):
    """Client side transport of one simulated TCP connection."""

    def __init__(self, net, server, host, port, protocol):
        super().__init__()
        self.net = net
        self.loop = net.loop
        self.server = server
        self.host, self.port = host, port
        self.protocol = protocol
        self.id = len(net.conns)
        self.closed = False  # closed by client
        self.lost = False
        self.sock = FakeSocket()
        self.sent = b""

    def get_extra_info(self, name, default=None):
        return {"socket": self.sock, "peername": (self.host, self.port)}.get(name, default)

    def is_closing(self):
        return self.closed or self.lost

    def write(self, data):
        if self.closed or self.lost:
            return
        self.sent += bytes(data)
        if self.net.pause_writes:
            self.protocol.pause_writing()
            self.loop.post(f"c{self.id} drain", ("resume", self._resume))
        self.server.data(self, bytes(data))

    def writelines(self, lines):
        self.write(b"".join(lines))

    def _resume(self):
        self.protocol.resume_writing()

    def can_write_eof(self):
        return False

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.net.ctx.note("close", self.id)
        if not self.lost:
            self.lost = True
            self.loop.call_soon(self.protocol.connection_lost, None)

    def abort(self):
        self.close()

    def pause_reading(self):
        pass

    def resume_reading(self):
        pass

    def is_reading(self):
        return True

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def get_write_buffer_size(self):
        return 0

    def get_protocol(self):
        return self.protocol

    def set_protocol(self, p):
        self.protocol = p

    # server side actions
    def deliver(self, data):
        if self.closed or self.lost:
            return
        self.protocol.data_received(data)

    def eof(self):
        if self.closed or self.lost:
            return
        keep = self.protocol.eof_received()
        if not keep:
            self.lost = True
            self.loop.call_soon(self.protocol.connection_lost, None)

    def reset(self):
        if self.closed or self.lost:
            return
        self.lost = True
        self.loop.call_soon(self.protocol.connection_lost, ConnectionResetError(errno.ECONNRESET, "reset by peer"))


class UdpEndpoint(asyncio.DatagramTransport):
    def __init__(self, net, protocol):
        super().__init__()
        self.net = net
        self.protocol = protocol
        self.closed = False
        self.sock = FakeSocket()
        self.sends = []

    def get_extra_info(self, name, default=None):
        return {"socket": self.sock}.get(name, default)

    def sendto(self, data, addr=None):
        if self.closed:
            return
        self.sends.append((bytes(data), addr))
        if self.net.on_udp_send:
            self.net.on_udp_send(self, bytes(data), addr)

    def deliver(self, data, addr):
        if not self.closed:
            self.protocol.datagram_received(data, addr)

    def error(self, ex):
        if not self.closed:
            self.protocol.error_received(ex)

    def is_closing(self):
        return self.closed

    def close(self):
        if not self.closed:
            self.closed = True
            self.net.loop.call_soon(self.protocol.connection_lost, None)

    def abort(self):
        self.close()


def _oserror(no, cls=OSError):
    return cls(no, errno.errorcode.get(no, str(no)))


CONNECT_FAULTS = {
    "refused": lambda: ConnectionRefusedError(errno.ECONNREFUSED, "refused"),
    "unreach": lambda: _oserror(errno.EHOSTUNREACH),
    "hostdown": lambda: _oserror(errno.EHOSTDOWN),
    "netunreach": lambda: _oserror(errno.ENETUNREACH),
    "reset": lambda: ConnectionResetError(errno.ECONNRESET, "reset"),
    "weird": lambda: RuntimeError("unexpected failure while connecting"),
}


class HttpReq:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class HttpResp:
    """What a simulated HTTP server answers."""

    def __init__(self, status=200, body=b"", cookies=None, headers=None):
        self.status = status
        if isinstance(body, dict | list):
            body = _json.dumps(body).encode()
        elif isinstance(body, str):
            body = body.encode()
        self.body = body
        self.cookies = cookies or []  # raw Set-Cookie strings
        self.headers = headers or {}
        self.meta = None


class ClientResp:
    """The client side response object (subset of aiohttp.ClientResponse)."""

    net = None

    def __init__(self, url, resp: HttpResp, read_exc=None):
        self.url = url
        self.real_url = url
        self.status = resp.status
        self.reason = "x"
        self._body = resp.body
        self.headers = CIMultiDict(resp.headers)
        self._read_exc = read_exc
        self._cookies = SimpleCookie()
        for c in resp.cookies:
            self._cookies.load(c)
        self.closed = False

    @property
    def cookies(self):
        return self._cookies

    @property
    def ok(self):
        return self.status < 400

    @property
    def content_type(self):
        return self.headers.get("Content-Type", "application/json")

    async def read(self):
        if self.net is not None and self.net.http_body_phase:
            fut = self.net.loop.create_future()
            ev = self.net.loop.post(f"body {self.url.host}", ("ok", lambda: fut.done() or fut.set_result(None)))
            try:
                await fut
            finally:
                self.net.loop.drop(ev)
        if self._read_exc:
            raise self._read_exc
        return self._body

    async def text(self, encoding=None, errors="strict"):
        return (await self.read()).decode(encoding or "utf-8", errors)

    async def json(self, *, encoding=None, loads=_json.loads, content_type="application/json"):
        return loads((await self.read()).decode())

    def raise_for_status(self):
        if self.status >= 400:
            raise aiohttp.ClientResponseError(SimpleNamespace(real_url=self.url), (), status=self.status)

    def release(self):
        self.closed = True

    def close(self):
        self.closed = True

    async def wait_for_close(self):
        pass

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.release()


def _connector_error(host, port):
    key = SimpleNamespace(host=host, port=port, ssl=True, is_ssl=False)
    return aiohttp.ClientConnectorError(key, ConnectionRefusedError(errno.ECONNREFUSED, "refused"))


class Net:
    """All simulated peers of one execution."""

    def __init__(self, loop, ctx):
        self.loop = loop
        self.ctx = ctx
        loop.net = self
        self.tcp = {}  # (host, port) -> server
        self.http = {}  # (host, port) -> server
        self.conns = []
        self.udps = []
        self.pause_writes = False
        self.on_udp_send = None
        self.connect_faults = []  # names offered at each TCP connect
        self.http_faults = []  # names offered at each HTTP exchange
        self.http_fault_filter = None  # fn(req) -> list of names
        self.http_two_phase = False
        self.http_body_phase = False  # the body arrives separately from the header
        self.http_log = []
        self.sessions = []
        self.tcp_inflight = {}
        self.udp_fail = False
        self.http_async_default = True
        self.force = None  # fn(stage, names) -> name of the only outcome, or None
        self.fault_log = []  # (outcome name, request or "connect"/"reply") of every exchange in order

    # ---- TCP
    async def tcp_connect(self, factory, host, port, **kw):
        server = self.tcp.get((host, port))
        fut = self.loop.create_future()

        def fail(ex):
            def f():
                if not fut.done():
                    fut.set_exception(ex())
            return f

        def ok():
            if not fut.done():
                fut.set_result(None)

        if server is None:
            outs = [("refused", fail(CONNECT_FAULTS["refused"]))]
        else:
            outs = [("ok", ok)]
            for n in self.connect_faults:
                if n == "hang":
                    outs.append(("hang", lambda: None))
                else:
                    outs.append((n, fail(CONNECT_FAULTS[n])))

        forced = self.force and self.force("connect", list(CONNECT_FAULTS) + ["hang"])
        if forced:
            outs = [(forced, fail(CONNECT_FAULTS[forced]) if forced != "hang" else (lambda: None))]

        def logged(name, fn):
            def f():
                self.fault_log.append((name, "connect"))
                return fn()
            return f

        outs = [(nm, logged(nm, fn)) for nm, fn in outs]
        ev = self.loop.post(f"connect {host}", *outs)
        try:
            await fut
        except asyncio.CancelledError:
            self.loop.drop(ev)
            raise
        protocol = factory()
        conn = TcpConn(self, server, host, port, protocol)
        self.conns.append(conn)
        self.ctx.note("open", conn.id, host, port)
        server.accepted(conn)
        protocol.connection_made(conn)
        return conn, protocol

    def open_conns(self):
        return [c for c in self.conns if not c.closed and not c.lost]

    # ---- UDP
    async def udp_endpoint(self, factory, local_addr, remote_addr, **kw):
        if self.udp_fail:
            raise OSError(errno.EADDRINUSE, "no endpoint")
        await asyncio.sleep(0)
        protocol = factory()
        t = UdpEndpoint(self, protocol)
        self.udps.append(t)
        self.ctx.note("udp open")
        protocol.connection_made(t)
        return t, protocol

    # ---- HTTP
    async def request(self, session, method, url, *, params=None, data=None, json=None, cookies=None,
                      headers=None, timeout=None, ssl=None, auth=None, **kw):
        if session.closed:
            raise RuntimeError("Session is closed")
        url = URL(url) if not isinstance(url, URL) else url
        if params:
            url = url.update_query(params)
        total = getattr(timeout, "total", timeout)
        if data is not None and json is not None:
            raise ValueError("data and json parameters can not be used at the same time")
        if json is not None:
            body = _json.dumps(json).encode()
        elif data is None:
            body = b""
        elif isinstance(data, bytes | bytearray):
            body = bytes(data)
        elif isinstance(data, str):
            body = data.encode()
        elif hasattr(data, "__aiter__"):
            body = b""
            async for part in data:
                body += part
        elif isinstance(data, dict):
            from urllib.parse import urlencode
            body = urlencode(data).encode()
        else:
            body = bytes(data)
        jar = session.cookie_jar.filter_cookies(url)
        sent_cookies = {k: m.value for k, m in jar.items()}
        if cookies:
            for k, v in dict(cookies).items():
                sent_cookies[k] = getattr(v, "value", v)
        hdrs = CIMultiDict(headers or {})
        if json is not None:
            hdrs.setdefault("Content-Type", "application/json")
        if auth is not None:
            hdrs["Authorization"] = auth.encode()
        req = HttpReq(method=method, url=url, host=url.host, port=url.port, path=url.path, query=dict(url.query),
                      body=body, cookies=sent_cookies, headers=hdrs, ssl=ssl, session=session, timeout=total)
        server = self.http.get((url.host, url.port))
        self.http_log.append(req)
        if server is not None and hasattr(server, "on_wire"):
            server.on_wire(req)
        self.ctx.note("http>", method, str(url.path), len(body))
        fut = self.loop.create_future()
        events = []

        def resolve(v, exc=None, read_exc=None):
            if fut.done():
                return
            if exc is not None:
                fut.set_exception(exc)
            else:
                fut.set_result((v, read_exc))

        def process():
            req.processed = True
            return server.handle(req)

        def o_ok():
            r = process()
            if r is None:
                return  # server stays silent
            if isinstance(r, BaseException):
                resolve(None, r)
            else:
                resolve(r)

        def o_ok_two_phase():
            r = process()
            if r is None:
                return
            events.append(self.loop.post(f"reply {url.host}", ("ok", lambda: resolve(r) if not isinstance(r, BaseException) else resolve(None, r))))

        table = {
            "refused": lambda: resolve(None, _connector_error(url.host, url.port)),
            "disc": lambda: resolve(None, aiohttp.ServerDisconnectedError()),
            "lost": lambda: (process(), resolve(None, aiohttp.ServerDisconnectedError())),
            "oserr": lambda: resolve(None, aiohttp.ClientOSError(errno.EPIPE, "broken pipe")),
            "hang": lambda: None,
            "losthang": lambda: (process(), None)[1],
            "clienterr": lambda: resolve(None, aiohttp.ClientError("client error")),
            "servertimeout": lambda: resolve(None, aiohttp.ServerTimeoutError("timeout")),
            "payload": lambda: resolve(process() or HttpResp(), None, aiohttp.ClientPayloadError("payload incomplete")),
            "ssl": lambda: resolve(None, aiohttp.ClientConnectorError(SimpleNamespace(host=url.host, port=url.port, ssl=True, is_ssl=True), OSError(1, "ssl"))),
            "weird": lambda: resolve(None, ValueError("weird failure inside http client")),
            "s500": lambda: resolve(HttpResp(500, b"")),
            "s403": lambda: resolve(HttpResp(403, b"")),
            "s401": lambda: resolve(HttpResp(401, b"")),
            "s404": lambda: resolve(HttpResp(404, b"")),
            "s503": lambda: resolve(HttpResp(503, b"oops")),
            "empty": lambda: (process(), resolve(HttpResp(200, b"")))[1],
            "emptyjson": lambda: (process(), resolve(HttpResp(200, b"{}")))[1],
            "garbage": lambda: (process(), resolve(HttpResp(200, b"\x00\xff garbage")))[1],
            "jsonlist": lambda: (process(), resolve(HttpResp(200, b"[1]")))[1],
            "jsonnull": lambda: (process(), resolve(HttpResp(200, b'{"error_code":0}')))[1],
            "errweird": lambda: (process(), resolve(HttpResp(200, b'{"error_code":-987654}')))[1],
            "errstr": lambda: (process(), resolve(HttpResp(200, b'{"error_code":"x"}')))[1],
            "noresp": lambda: (process(), resolve(HttpResp(200, b'{"error_code":0,"result":{}}')))[1],
            "resnull": lambda: (process(), resolve(HttpResp(200, b'{"error_code":0,"result":null}')))[1],
            "resnotb64": lambda: (process(), resolve(HttpResp(200, b'{"error_code":0,"result":{"response":"!!notb64"}}')))[1],
            "resjunk": lambda: (process(), resolve(HttpResp(200, b'{"error_code":0,"result":{"response":"AAAAAAAAAAAAAAAAAAAAAA=="}}')))[1],
        }
        if server is None:
            outs = [("refused", table["refused"])]
        else:
            outs = [("ok", o_ok_two_phase if self.http_two_phase else o_ok)]
            names = list(self.http_faults)
            if self.http_fault_filter:
                names = self.http_fault_filter(req, names)
            outs += [(n, table[n]) for n in names]
        forced = self.force and self.force("http", list(table))
        if forced:
            outs = [(forced, table[forced])]

        def logged(name, fn):
            def f():
                self.fault_log.append((name, req))
                return fn()
            return f

        outs = [(nm, logged(nm, fn)) for nm, fn in outs]
        ev = self.loop.post(f"http {url.host}", *outs)
        events.append(ev)
        key = (url.host, url.port)
        self.tcp_inflight[key] = self.tcp_inflight.get(key, 0) + 1
        if server is not None:
            server.max_inflight = max(getattr(server, "max_inflight", 0), self.tcp_inflight[key])
        try:
            if total:
                async with asyncio.timeout(total):
                    resp, read_exc = await fut
            else:
                resp, read_exc = await fut
        finally:
            self.tcp_inflight[key] -= 1
            if not fut.done() or fut.cancelled():
                for e in events:
                    # a request the client gave up on may or may not have reached the device;
                    # the fault alphabet covers both, so the pending event is withdrawn
                    self.loop.drop(e)
        if session.closed:
            raise aiohttp.ClientConnectionError("Connector is closed.")
        if read_exc is None and hasattr(server, "on_delivered"):
            server.on_delivered(req, resp)
        out = ClientResp(url, resp, read_exc)
        out.net = self
        if out.cookies:
            session.cookie_jar.update_cookies(out.cookies, url)
        self.ctx.note("http<", out.status, len(resp.body))
        return out


def install_http():
    """Route every aiohttp session of the process to the current Net."""
    if getattr(aiohttp.ClientSession, "_mc", False):
        return

    async def _request(self, method, str_or_url, **kw):
        loop = asyncio.get_running_loop()
        return await loop.net.request(self, method, str_or_url, **kw)

    orig_init = aiohttp.ClientSession.__init__

    def __init__(self, *a, **k):
        orig_init(self, *a, **k)
        try:
            net = asyncio.get_running_loop().net
        except (RuntimeError, AttributeError):
            net = None
        if net is not None:
            net.sessions.append(self)

    aiohttp.ClientSession._request = _request
    aiohttp.ClientSession.__init__ = __init__
    aiohttp.ClientSession.__del__ = lambda self: None
    aiohttp.ClientSession._mc = True
