"""Independent peers for the HTTP transports, written from the protocol descriptions.

Every server checks what it receives and reports protocol breaches as violations.
`app(request_dict)` supplies the JSON answer (or None to stay silent).
"""

from __future__ import annotations

import base64
import hashlib
import json
import struct

from cryptography.hazmat.primitives import padding as sympad
from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives.asymmetric import padding as asympad
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes

from .core import Violation
from .net import HttpResp


def md5(b):
    return hashlib.md5(b).digest()


def sha1(b):
    return hashlib.sha1(b).digest()


def sha256(b):
    return _SHA(b).digest()


_SHA = hashlib.sha256  # the genuine one, also when hashlib.sha256 is wrapped later


def aes_enc(key, iv, data):
    p = sympad.PKCS7(128).padder()
    d = p.update(data) + p.finalize()
    e = Cipher(algorithms.AES(key), modes.CBC(iv)).encryptor()
    return e.update(d) + e.finalize()


def aes_dec(key, iv, data):
    d = Cipher(algorithms.AES(key), modes.CBC(iv)).decryptor()
    x = d.update(data) + d.finalize()
    u = sympad.PKCS7(128).unpadder()
    return u.update(x) + u.finalize()


class Base:
    gaps_ok = False  # a request cancelled before it was put on the wire may use up a sequence number

    def __init__(self, net, app):
        self.net = net
        self.ctx = net.ctx
        self.app = app
        self.max_inflight = 0
        self.apps = []  # application requests executed
        self.n = 0

    def note(self, *a):
        self.ctx.note("srv", *a)

    def fail(self, msg, sig):
        raise Violation(msg, sig)


# ------------------------------------------------------------------ KLAP
IV_SEQ_OVERRIDE = [None, None]  # value, input of the one digest it applies to
_real_sha256 = hashlib.sha256


def klap_auth(version, user, pw):
    if version == 1:
        return md5(md5(user.encode()) + md5(pw.encode()))
    return sha256(sha1(user.encode()) + sha1(pw.encode()))


class KlapServer(Base):
    """KLAP v1/v2 device."""

    def __init__(self, net, app, version, creds, host="h", timeout_cookie=86400, path="/app"):
        super().__init__(net, app)
        self.version = version
        self.auth = klap_auth(version, *creds)
        self.sessions = {}
        self.seeds = set()
        self.timeout_cookie = timeout_cookie
        self.wire_seq = {}
        self.proof_failed_for = None
        self.handshakes = 0
        self.closed_sessions = set()
        self.overridden = False

    def set_creds(self, creds):
        self.auth = klap_auth(self.version, *creds)

    def drop_sessions(self):
        self.closed_sessions |= set(self.sessions)
        self.sessions = {}

    def now(self):
        return self.net.loop.time()

    def handle(self, req):
        path = req.path
        if req.method != "POST":
            self.fail(f"unexpected {req.method}", "method")
        if path.endswith("/handshake1"):
            return self.hs1(req)
        if path.endswith("/handshake2"):
            return self.hs2(req)
        if path.endswith("/request"):
            return self.request(req)
        self.fail(f"unknown path {path}", "path")

    def hs1(self, req):
        if len(req.body) != 16:
            self.fail(f"handshake1 with {len(req.body)} byte seed", "seed length")
        if req.body in self.seeds:
            self.fail("handshake1 reuses an earlier client seed", "seed reuse")
        self.seeds.add(req.body)
        self.handshakes += 1
        self.n += 1
        sid = f"SID-{self.n}-{req.host}"
        remote = hashlib.sha512(b"remote%d" % self.n + req.body).digest()[:16]
        sess = dict(local=req.body, remote=remote, auth=self.auth, done=False, t0=self.now(), seq=None, id=sid)
        self.sessions[sid] = sess
        if self.version == 1:
            proof = sha256(req.body + self.auth)
        else:
            proof = sha256(req.body + remote + self.auth)
        self.note("hs1")
        cookies = [f"TP_SESSIONID={sid};TIMEOUT={self.timeout_cookie}"] if self.timeout_cookie else [f"TP_SESSIONID={sid}"]
        return HttpResp(200, remote + proof, cookies)

    def session(self, req, what):
        sid = req.cookies.get("TP_SESSIONID")
        if sid is None:
            self.fail(f"{what} without the session cookie", "no cookie")
        if "TIMEOUT" in req.cookies:
            self.fail("the timeout cookie was sent back", "timeout cookie")
        s = self.sessions.get(sid)
        if s is None:
            if sid not in self.closed_sessions:
                self.fail(f"{what} with a cookie this device never issued: {sid}", "foreign cookie")
            return None
        return s

    def hs2(self, req):
        s = self.session(req, "handshake2")
        if s is None:
            return HttpResp(403)
        want = sha256(s["remote"] + s["auth"]) if self.version == 1 else sha256(s["remote"] + s["local"] + s["auth"])
        if req.body != want:
            # with the right device proof the client must present the matching proof
            self.fail("handshake2 carries a wrong proof although the device proof verified", "hs2 proof")
        s["done"] = True
        h = self._derive(b"iv", s)
        seq0 = int.from_bytes(h[-4:], "big", signed=True)
        s["natural"] = seq0
        if IV_SEQ_OVERRIDE[0] is not None and not self.overridden:
            # applies to the first session only
            self.overridden = True
            seq0 = IV_SEQ_OVERRIDE[0]
            IV_SEQ_OVERRIDE[1] = b"iv" + s["local"] + s["remote"] + s["auth"]
        s["iv"] = h[:12]
        s["seq"] = s["seq0"] = seq0
        s["key"] = self._derive(b"lsk", s)[:16]
        s["sig"] = self._derive(b"ldk", s)[:28]
        self.note("hs2 ok")
        return HttpResp(200, b"")

    def _derive(self, label, s):
        return _real_sha256(label + s["local"] + s["remote"] + s["auth"]).digest()

    def request(self, req):
        s = self.session(req, "request")
        if s is None:
            return HttpResp(403)
        if not s["done"]:
            self.fail("request sent in a session whose handshake is not complete", "request before handshake")
        if self.timeout_cookie and self.now() - s["t0"] > self.timeout_cookie:
            self.fail("request sent in an expired session", "expired session used")
        seq = int(req.query["seq"])
        if seq <= s["seq"]:
            self.fail(f"sequence number {seq} after {s['seq']}", "seq reuse")
        if seq > s["seq"] + 1 and not s.get("gap_ok"):
            # gaps are only legitimate when the network lost a request
            pass
        s["seq"] = seq
        sig, ct = req.body[:32], req.body[32:]
        pseq = struct.pack(">l", seq)
        if sig != sha256(s["sig"] + pseq + ct):
            self.fail("request signature does not verify", "signature")
        iv = s["iv"] + pseq
        try:
            plain = aes_dec(s["key"], iv, ct).decode()
            obj = json.loads(plain)
        except Exception as ex:  # noqa: BLE001
            self.fail(f"request does not decrypt: {ex}", "decrypt")
        self.apps.append(obj)
        self.note("req", obj.get("method") or sorted(obj))
        ans = self.app(obj)
        if ans is None:
            return None
        out = aes_enc(s["key"], iv, json.dumps(ans, ensure_ascii=False).encode())
        return HttpResp(200, sha256(s["sig"] + pseq + out) + out)

    def on_wire(self, req):
        """Every request the client puts on the wire, lost or not."""
        if req.path.endswith("/request"):
            sid = req.cookies.get("TP_SESSIONID")
            seq = int(req.query["seq"])
            if not -(2**31) <= seq < 2**31:
                self.fail(f"sequence number {seq} does not fit 32 bits", "seq range")
            last = self.wire_seq.get(sid)
            s = self.sessions.get(sid)
            if last is None and s is not None and s["done"]:
                if seq == s["natural"] + 1:
                    s["seq0"] = s["seq"] = s["natural"]  # the override did not reach the client
                last = s["seq0"]
            if last is not None and seq != last + 1 and not (self.gaps_ok and seq > last):
                self.fail(f"sequence number on the wire went from {last} to {seq}", "seq step")
            self.wire_seq[sid] = seq


def install_iv_override():
    """Let scenarios choose the initial KLAP sequence number.

    sha256 digests of inputs that start with b'iv' get their last four bytes replaced while an
    override is active; everything else is untouched.
    """
    if getattr(hashlib, "_mc_iv", False):
        return
    real = hashlib.sha256

    class _H:
        def __init__(self, data):
            self.data = bytes(data)

        def update(self, d):
            self.data += bytes(d)

        def _fix(self, out):
            ov = IV_SEQ_OVERRIDE
            if ov[0] is not None and self.data[:2] == b"iv" and len(self.data) > 34 and ov[1] == self.data:
                return out[:-4] + struct.pack(">l", ov[0])
            return out

        def digest(self):
            return self._fix(real(self.data).digest())

        def hexdigest(self):
            return self.digest().hex()

    def sha256w(data=b"", **kw):
        if IV_SEQ_OVERRIDE[0] is None:
            return real(data, **kw)
        return _H(data)

    hashlib.sha256 = sha256w
    hashlib._mc_iv = True


# ------------------------------------------------------------------ AES passthrough
class AesServer(Base):
    """AES securePassthrough device (login v1 or v2)."""

    def __init__(self, net, app, login_version, creds, host="h", timeout_cookie=86400):
        super().__init__(net, app)
        self.login_version = login_version
        self.creds = creds
        self.sessions = {}
        self.dead = set()
        self.dead_tokens = set()
        self.timeout_cookie = timeout_cookie
        self.script = {}  # stage -> list of error codes to answer
        self.plaintext = False
        self.logins = []
        self.handshakes = 0
        self.client_creds = None  # what the client was configured with
        self.rejection_delivered = False  # the client has seen its user login rejected, no login since
        self.scripted = []  # (stage, code) consumed

    def now(self):
        return self.net.loop.time()

    def drop_sessions(self):
        self.dead |= set(self.sessions)
        for s in self.sessions.values():
            if s["token"]:
                self.dead_tokens.add(s["token"])
        self.sessions = {}

    def _err(self, stage):
        lst = self.script.get(stage)
        if lst:
            c = lst.pop(0)
            self.scripted.append((stage, c))
            return c
        return 0

    def on_delivered(self, req, resp):
        m = resp.meta
        if m == "user rejected":
            self.rejection_delivered = True

    def handle(self, req):
        try:
            body = json.loads(req.body.decode())
        except Exception as ex:  # noqa: BLE001
            self.fail(f"body is not JSON: {ex}", "body")
        if body.get("method") == "handshake":
            return self.handshake(req, body)
        if body.get("method") == "securePassthrough":
            return self.passthrough(req, body)
        self.fail(f"unexpected outer method {body.get('method')}: sent in clear", "clear request")

    def handshake(self, req, body):
        self.handshakes += 1
        e = self._err("handshake")
        if e:
            return HttpResp(200, {"error_code": e})
        pem = body["params"]["key"]
        b64 = pem.replace("-----BEGIN PUBLIC KEY-----", "").replace("-----END PUBLIC KEY-----", "").replace("\n", "")
        pub = serialization.load_der_public_key(base64.b64decode(b64))
        self.n += 1
        secret = hashlib.sha512(b"aeskey%d" % self.n + req.host.encode()).digest()[:32]
        sid = f"ASID-{self.n}-{req.host}"
        self.sessions[sid] = dict(key=secret[:16], iv=secret[16:], token=None, t0=self.now(), rejected=False)
        self.note("handshake")
        enc = base64.b64encode(pub.encrypt(secret, asympad.PKCS1v15())).decode()
        return HttpResp(200, {"error_code": 0, "result": {"key": enc}}, [f"TP_SESSIONID={sid};TIMEOUT={self.timeout_cookie}"])

    def want_login(self, creds):
        user, pw = creds
        un = base64.b64encode(hashlib.sha1(user.encode()).hexdigest().encode()).decode()
        if self.login_version == 2:
            return {"username": un, "password2": base64.b64encode(hashlib.sha1(pw.encode()).hexdigest().encode()).decode()}
        return {"username": un, "password": base64.b64encode(pw.encode()).decode()}

    def passthrough(self, req, body):
        sid = req.cookies.get("TP_SESSIONID")
        if sid is None:
            self.fail("passthrough without a session cookie", "no cookie")
        s = self.sessions.get(sid)
        if s is None:
            if sid not in self.dead:
                self.fail(f"passthrough with a cookie this device never issued: {sid}", "foreign cookie")
            return HttpResp(200, {"error_code": 9999})
        if self.now() - s["t0"] > self.timeout_cookie:
            self.fail("passthrough in an expired session", "expired session used")
        try:
            inner = json.loads(aes_dec(s["key"], s["iv"], base64.b64decode(body["params"]["request"])).decode())
        except Exception as ex:  # noqa: BLE001
            self.fail(f"passthrough request does not decrypt under the session key: {ex}", "decrypt")
        if inner.get("method") == "login_device":
            if req.query.get("token"):
                self.fail("login sent with a token", "login with token")
            return self.login(req, s, inner)
        token = req.query.get("token")
        if s["token"] is None:
            self.fail(f"request {inner.get('method')} sent before login", "request before login")
        if token != s["token"]:
            self.fail(f"request with token {token}, the session's is {s['token']}", "token")
        e = self._err("request_outer")
        if e:
            return HttpResp(200, {"error_code": e})
        self.apps.append(inner)
        self.note("req", inner.get("method"))
        ans = self.app(inner)
        if ans is None:
            return None
        return self.reply(s, ans)

    def reply(self, s, ans):
        txt = json.dumps(ans, ensure_ascii=False)
        if self.plaintext:
            return HttpResp(200, {"error_code": 0, "result": {"response": txt}})
        return HttpResp(200, {"error_code": 0, "result": {"response": base64.b64encode(aes_enc(s["key"], s["iv"], txt.encode())).decode()}})

    def login(self, req, s, inner):
        p = inner.get("params")
        self.logins.append(p)
        default = p == self.want_login(("test@tp-link.net", "test"))
        user = self.client_creds is None or p == (self.client_creds if isinstance(self.client_creds, dict) else self.want_login(self.client_creds))
        self.note("login", "user" if user else "default" if default else "?")
        if not user:
            if not default:
                self.fail(f"login with credentials that are neither the user's nor the default: {p}", "login creds")
            if not self.rejection_delivered:
                self.fail("default credentials tried although the user's login was not rejected", "default too early")
            if s.get("rejected"):
                self.fail("default credentials tried inside the key exchange in which the user's login was rejected", "default without fresh handshake")
        self.rejection_delivered = False
        e = self._err("login_outer")
        if e:
            r = HttpResp(200, {"error_code": e})
            r.meta = "user rejected" if user and e == -1501 else None
            return r
        e = self._err("login")
        if not e and p != self.want_login(self.creds):
            e = -1501
        if e:
            s["rejected"] = True
            r = self.reply(s, {"error_code": e})
            r.meta = "user rejected" if user and e == -1501 else None
            return r
        if s.get("rejected"):
            # the device answers 9999 to a second login in the same key exchange
            return self.reply(s, {"error_code": 9999})
        self.n += 1
        s["token"] = f"TOK{self.n}{req.host}"
        return self.reply(s, {"error_code": 0, "result": {"token": s["token"]}})


# ------------------------------------------------------------------ camera (TLS + AES)
def H(b):
    return _SHA(b).hexdigest().upper()


class CamServer(Base):
    """Camera server: secure (encrypt type 3) and less secure login."""

    def __init__(self, net, app, creds, hash_kind="sha256", mode="secure", host="h"):
        super().__init__(net, app)
        self.set_creds(creds, hash_kind)
        self.mode = mode  # secure | insecure
        self.host = host
        self.pending = {}
        self.sessions = {}  # stok -> session
        self.dead = set()
        self.blocked = False
        self.script = {}
        self.handshakes = 0
        self.nonces = set()
        self.wire_seq = {}
        self.wrong_confirm = False
        self.dead_secure = set()
        self.scripted = []
        self.digests = 0

    def set_creds(self, creds, hash_kind="sha256"):
        self.user, self.pw = creds
        self.hash_kind = hash_kind
        self.pwd_hash = H(self.pw.encode()) if hash_kind == "sha256" else hashlib.md5(self.pw.encode()).hexdigest().upper()

    def drop_sessions(self):
        self.dead |= set(self.sessions)
        self.dead_secure |= {k for k, s in self.sessions.items() if s["secure"]}
        self.sessions = {}

    def _err(self, stage):
        lst = self.script.get(stage)
        if not lst:
            return 0
        c = lst.pop(0)
        self.scripted.append((stage, c))
        return c

    def handle(self, req):
        if req.ssl is True:
            self.fail("camera certificate would be verified", "ssl")
        try:
            body = json.loads(req.body.decode())
        except Exception as ex:  # noqa: BLE001
            self.fail(f"body is not JSON: {ex}", "body")
        if "/stok=" in req.path:
            return self.inside(req, body)
        if body.get("method") == "login":
            return self.login(req, body["params"])
        self.fail(f"request {body.get('method')} outside any session", "no session")

    def nonce_reply(self, code, data):
        return HttpResp(200, {"error_code": code, "result": {"data": data}})

    def login(self, req, p):
        if self.blocked:
            return HttpResp(200, {"error_code": -40401, "data": {"code": -40404, "sec_left": 300}})
        if p.get("hashed"):
            self.note("md5 login")
            if p.get("username") in self.refused_names and p.get("username") != "admin":
                self.fail("less secure login with a user name the camera just refused", "refused name")
            if self.mode != "insecure":
                self.fail("less secure login sent to a camera that did not offer it", "downgrade")
            if p.get("username") != self.user or p.get("password") != hashlib.md5(self.pw.encode()).hexdigest().upper():
                return HttpResp(200, {"error_code": -40401, "result": {"data": {"code": -40401}}})
            self.n += 1
            stok = f"istok{self.n}{self.host}"
            self.sessions[stok] = dict(secure=False)
            return HttpResp(200, {"error_code": 0, "result": {"stok": stok}})
        if "digest_passwd" in p:
            return self.hs2(req, p)
        return self.hs1(req, p)

    def hs1(self, req, p):
        self.handshakes += 1
        cn = p["cnonce"]
        if cn in self.nonces:
            self.fail("client nonce reused in a new handshake", "nonce reuse")
        self.nonces.add(cn)
        e = self._err("hs1")
        if e:
            return HttpResp(200, {"error_code": e, "result": {"data": {}}})
        if self.mode == "insecure":
            self.note("hs1 insecure")
            data = {"code": -40401, "encrypt_type": ["1", "2"]}
            self.refused_names = set()
            if p["username"] != self.user:
                data["code"] = -40411
                self.refused_names.add(p["username"])
            return self.nonce_reply(-40401, data)
        if p["username"] != self.user:
            return self.nonce_reply(-40401, {"code": -40411, "encrypt_type": ["3"]})
        self.n += 1
        nonce = H(b"nonce%d" % self.n)[:16]
        confirm = H((cn + self.pwd_hash + nonce).encode()) + nonce + cn
        if self.wrong_confirm:
            confirm = H(b"wrong" + cn.encode()) + nonce + cn
        self.pending = {cn: dict(nonce=nonce, good=not self.wrong_confirm)}
        self.note("hs1")
        return self.nonce_reply(-40413, {"code": -40413, "encrypt_type": ["3"], "key": "k", "nonce": nonce, "device_confirm": confirm})

    def hs2(self, req, p):
        cn = p["cnonce"]
        self.digests += 1
        pend = self.pending.get(cn)
        if pend is None:
            self.fail("handshake2 with a nonce of another handshake", "hs2 nonce")
        if not pend["good"]:
            self.fail("the client sent its digest although the device proof was wrong", "digest to impostor")
        nonce = pend["nonce"]
        if p.get("username") != self.user:
            self.fail("handshake2 for a different user", "hs2 user")
        want = H((self.pwd_hash + cn + nonce).encode()) + cn + nonce
        if p["digest_passwd"] != want:
            self.fail("digest does not match the verified device proof", "hs2 digest")
        e = self._err("hs2")
        if e:
            return HttpResp(200, {"error_code": e, "result": {"data": {}}})
        self.n += 1
        hk = H((cn + self.pwd_hash + nonce).encode())
        key = _SHA(("lsk" + cn + nonce + hk).encode()).digest()[:16]
        iv = _SHA(("ivb" + cn + nonce + hk).encode()).digest()[:16]
        stok = f"stok{self.n}{self.host}"
        start = self.start_seq if hasattr(self, "start_seq") else 100 + 7 * self.n
        self.sessions[stok] = dict(secure=True, key=key, iv=iv, seq=start, cn=cn, start=start)
        self.note("hs2")
        return HttpResp(200, {"error_code": 0, "result": {"stok": stok, "user_group": "root", "start_seq": start}})

    def stok_of(self, req):
        return req.path.split("/stok=")[1].split("/")[0]

    def on_wire(self, req):
        if "/stok=" not in req.path:
            return
        stok = self.stok_of(req)
        s = self.sessions.get(stok)
        if not s or not s["secure"]:
            return
        seq = int(req.headers.get("Seq", "-1"))
        last = self.wire_seq.get(stok, s["start"] - 1)
        if seq != last + 1 and not (self.gaps_ok and seq > last):
            self.fail(f"sequence on the wire went from {last} to {seq}", "seq step")
        self.wire_seq[stok] = seq

    def inside(self, req, body):
        stok = self.stok_of(req)
        s = self.sessions.get(stok)
        if s is None:
            if stok not in self.dead:
                self.fail(f"unknown session token {stok}", "foreign token")
            if self.expired_how.startswith("500") and stok in self.dead_secure:
                return HttpResp(500, {"error_code": -40401, "result": {"response": "x"}} if self.expired_how == "500" else b"")
            return HttpResp(200, {"error_code": -40401, "result": {"data": {"code": -40401}}})
        e = self._err("request")
        if e:
            return HttpResp(200, {"error_code": e})
        if not s["secure"]:
            if body.get("method") == "securePassthrough":
                self.fail("encrypted request in a plain session", "enc in plain")
            self.apps.append(body)
            self.note("plain req", body.get("method"))
            ans = self.app(body)
            return None if ans is None else HttpResp(200, ans)
        if body.get("method") != "securePassthrough":
            self.fail(f"plain request {body.get('method')} in a secure session", "plaintext in secure session")
        raw = req.body.decode()
        # the body is sent as the exact string that was tagged
        text = json.loads(raw) if raw.startswith('"') else raw
        seq = req.headers.get("Seq")
        tag = H((H((self.pwd_hash + s["cn"]).encode()) + (text if isinstance(text, str) else raw) + str(seq)).encode())
        if req.headers.get("Tapo_tag") != tag:
            self.fail("request tag does not verify", "tag")
        if int(seq) < s["seq"]:
            self.fail(f"sequence {seq} below expected {s['seq']}", "seq reuse")
        s["seq"] = int(seq) + 1
        try:
            inner = json.loads(aes_dec(s["key"], s["iv"], base64.b64decode(body["params"]["request"])).decode())
        except Exception as ex:  # noqa: BLE001
            self.fail(f"request does not decrypt: {ex}", "decrypt")
        self.apps.append(inner)
        self.note("req", inner.get("method"))
        ans = self.app(inner)
        if ans is None:
            return None
        if self.plain_replies:
            return HttpResp(200, ans)
        enc = base64.b64encode(aes_enc(s["key"], s["iv"], json.dumps(ans, ensure_ascii=False).encode())).decode()
        return HttpResp(200, {"error_code": 0, "seq": int(seq), "result": {"response": enc}})

    expired_how = "code"
    plain_replies = False
    refused_names = frozenset()


# ------------------------------------------------------------------ TLS token (robot vacuum)
class TokenServer(Base):
    def __init__(self, net, app, creds, host="h", lifetime=86400):
        super().__init__(net, app)
        self.creds = creds
        self.tokens = {}
        self.dead = set()
        self.script = {}
        self.latest = None
        self.logins = []
        self.scripted = []
        self.client_creds = None
        self.rejection_delivered = False
        self.lifetime = lifetime

    def _err(self, stage):
        lst = self.script.get(stage)
        if not lst:
            return 0
        c = lst.pop(0)
        self.scripted.append((stage, c))
        return c

    def on_delivered(self, req, resp):
        if resp.meta == "user rejected":
            self.rejection_delivered = True

    def drop_sessions(self):
        self.dead |= set(self.tokens)
        self.tokens = {}

    def want(self, creds):
        return {"username": creds[0], "password": hashlib.md5(creds[1].encode()).hexdigest().upper()}

    def handle(self, req):
        if req.path != "/app":
            self.fail(f"path {req.path}", "path")
        try:
            body = json.loads(req.body.decode())
        except Exception as ex:  # noqa: BLE001
            self.fail(f"body is not JSON: {ex}", "body")
        if body.get("method") == "login":
            p = body["params"]
            self.logins.append(p)
            default = p == self.want(("test@tp-link.net", "test"))
            cc = self.client_creds
            user = cc is None or p == (cc if isinstance(cc, dict) else self.want(cc))
            self.note("login", "user" if user else "default" if default else "?")
            if not user:
                if not default:
                    self.fail(f"login with credentials that are neither the user's nor the default: {p}", "login creds")
                if not self.rejection_delivered:
                    self.fail("default credentials tried although the user's login was not rejected", "default too early")
            self.rejection_delivered = False
            e = self._err("login")
            if e == "none":
                return HttpResp(200, {"result": {}})
            if not e and p != self.want(self.creds):
                e = -1501
            if e:
                r = HttpResp(200, {"error_code": e})
                r.meta = "user rejected" if user and e == -1501 else None
                return r
            self.n += 1
            tok = f"VT{self.n}{req.host}"
            self.tokens[tok] = self.net.loop.time()
            self.latest = tok
            return HttpResp(200, {"error_code": 0, "result": {"token": tok}})
        tok = req.query.get("token")
        if tok is None:
            self.fail(f"request {body.get('method')} without a token", "no token")
        if tok not in self.tokens:
            if tok not in self.dead:
                self.fail(f"token {tok} was never issued", "foreign token")
            return HttpResp(200, {"error_code": -40401})
        if tok != self.latest:
            self.fail(f"request with token {tok}; the latest login's is {self.latest}", "old token")
        if self.net.loop.time() - self.tokens[tok] > self.lifetime:
            self.fail("request with an expired token", "expired token")
        e = self._err("request")
        if e == "none":
            return HttpResp(200, {"result": {}})
        if e:
            return HttpResp(200, {"error_code": e})
        self.apps.append(body)
        self.note("req", body.get("method"))
        ans = self.app(body)
        return None if ans is None else HttpResp(200, ans)


# ------------------------------------------------------------------ Linkie
class LinkieServer(Base):
    def __init__(self, net, app, host="h"):
        super().__init__(net, app)
        self.plain_error = None

    def drop_sessions(self):
        pass

    @staticmethod
    def enc(b):
        k = 171
        out = bytearray()
        for x in b:
            k ^= x
            out.append(k)
        return bytes(out)

    @staticmethod
    def dec(b):
        k = 171
        out = bytearray()
        for x in b:
            out.append(k ^ x)
            k = x
        return bytes(out)

    def handle(self, req):
        from urllib.parse import unquote_plus
        if req.path != "/data/LINKIE2.json":
            self.fail(f"path {req.path}", "path")
        auth = base64.b64encode(b"admin:21232f297a57a5a743894a0e4a801fc3").decode()
        if req.headers.get("Authorization") != f"Basic {auth}":
            self.fail("wrong authorization", "auth")
        body = req.body.decode()
        if not body.startswith("content="):
            self.fail("body", "body")
        try:
            obj = json.loads(self.dec(base64.b64decode(unquote_plus(body[8:]), validate=True)).decode())
        except Exception as ex:  # noqa: BLE001
            self.fail(f"undecodable linkie body: {ex}", "decode")
        self.apps.append(obj)
        self.note("req", sorted(obj))
        if self.plain_error is not None:
            return HttpResp(200, self.plain_error)
        ans = self.app(obj)
        return None if ans is None else HttpResp(200, base64.b64encode(self.enc(json.dumps(ans).encode())))


# ------------------------------------------------------------------ RSA key cache
_KEYS = []


def install_rsa_cache(n=4):
    """Key generation is slow and irrelevant for behaviour: hand out pre-generated keys."""
    from cryptography.hazmat.primitives.asymmetric import rsa
    if getattr(rsa, "_mc", False):
        return
    real = rsa.generate_private_key
    state = {"i": 0}

    def gen(public_exponent=65537, key_size=2048, backend=None):
        if len(_KEYS) < n:
            _KEYS.append((key_size, real(public_exponent, key_size)))
            return _KEYS[-1][1]
        state["i"] += 1
        size, key = _KEYS[state["i"] % n]
        return key if size == key_size else real(public_exponent, key_size)

    rsa.generate_private_key = gen
    rsa._mc = True
