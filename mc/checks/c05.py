"""C05: AES passthrough session histories against an independent device."""

from __future__ import annotations

import base64
import json

from mc import hist, servers, sess

prepare = sess.prepare
BOUNDS = {
    "quick": "histories of 3 queries with an event between them, 13 events incl. error codes of each class at each stage, fault budget 1 (all faults) / 2 (5 faults), login v1/v2, credential matrix",
    "thorough": "histories of 4-5 queries, fault budget 2-3",
}
FAULTS = ["disc", "lost", "hang", "losthang", "s403", "s500", "garbage", "empty", "oserr", "payload", "refused", "clienterr", "weird",
          "emptyjson", "jsonlist", "jsonnull", "noresp", "resnull", "resnotb64", "resjunk", "errweird", "errstr"]
FAULTS2 = ["disc", "losthang", "s500", "noresp", "resjunk"]
STAGES = ["handshake", "login", "login_outer", "request_outer"]
CODES = [9999, 1002, 1112, -1001, -40401, -40413, -1501, 1111, -1005, 1100, 1003, -40412, -1301, 1003001, -987654]
CREDS = {"own": sess.OWN, "other": sess.OTHER, "tapo": sess.DEFAULTS["tapo"], "blank": ("", "")}


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for kind in ("aes1", "aes2"):
        base = dict(kind=kind, dev="own", cli="own", faults=[], budget=0)
        out.append({**base, "name": "events", "n": 5 if th else 4, "events": ["none", "drop", "before_expiry", "after_expiry", "reset", "close", "plain", "creds:other", "creds:own", "creds:tapo"]})
        for st in STAGES:
            out.append({**base, "name": "codes", "n": 4 if th else 3, "events": ["none", "reset"] + [f"err:{st}:{c}" for c in CODES]})
        # two-stage error combinations
        out.append({**base, "name": "codes2", "n": 4 if th else 3,
                    "events": ["drop"] + [f"err:{st}:{c}" for st in STAGES for c in (9999, -1501, -1301)] + [f"err2:{st}:9999" for st in STAGES]})
        for ev in ["none", "drop", "before_expiry", "after_expiry", "reset", "plain"]:
            evs = ["none", ev] if ev != "none" else ["none"]
            out.append({**base, "name": "faults", "n": 3, "budget": 2 if th else 1, "faults": FAULTS, "events": evs})
            out.append({**base, "name": "faults2", "n": 3, "budget": 3 if th else 2, "faults": FAULTS2, "events": evs})
        for st in STAGES:
            out.append({**base, "name": "codefault", "n": 3, "budget": 2 if th else 1, "faults": FAULTS2, "events": ["drop"] + [f"err:{st}:{c}" for c in (9999, -1501, -1301)]})
        out.append({**base, "name": "cancel", "n": 3, "budget": 3 if th else 2, "faults": ["hang", "s500"], "events": ["none", "drop"], "cancel": 2})
        for dev in ("own", "other", "tapo", "blank"):
            for cli in ("own", "none", "blank", "hash", "tapo"):
                out.append({**base, "name": "creds", "n": 3, "budget": 1, "faults": ["disc", "lost", "losthang", "s500"], "events": ["none", "drop", "reset"], "dev": dev, "cli": cli})
    return out


def run(ctx, p):
    from kasa.exceptions import AuthenticationError  # noqa: F401

    ver = int(p["kind"][3])

    def build(n):
        cli = p["cli"]
        kw = {}
        creds = {"own": sess.OWN, "none": None, "blank": ("", ""), "hash": None, "tapo": sess.DEFAULTS["tapo"]}[cli]
        st = None
        if cli == "hash":
            tmp = servers.AesServer.__new__(servers.AesServer)
            tmp.login_version = ver
            kw["chash"] = base64.b64encode(json.dumps(tmp.want_login(sess.OWN)).encode()).decode()
        st = sess.Stack(n, p["kind"], creds=creds, dev_creds=CREDS[p["dev"]], **kw)
        st.server.client_creds = sess.OWN if cli == "hash" else creds or ("", "")
        return st

    def event(ev, st, loop):
        srv = st.server
        parts = ev.split(":")
        if parts[0] == "plain":
            srv.plaintext = not srv.plaintext
        elif parts[0] == "creds":
            srv.creds = CREDS[parts[1]]
            srv.drop_sessions()
        elif parts[0] in ("err", "err2"):
            srv.script.setdefault(parts[1], []).extend([int(parts[2])] * (2 if parts[0] == "err2" else 1))

    def expect(st, before):
        srv = st.server
        good = srv.creds in (st.server.client_creds, sess.DEFAULTS["tapo"])
        final = None
        codes = srv.scripted[before["scripted"]:]
        retries = 3
        for k, (stage, c) in enumerate(codes):
            cls = hist.classify(c)
            if cls == "retry":
                retries -= 1
                if retries < 0:
                    return {"KasaException", "DeviceError", "_RetryableError"}
                continue
            if c == -1501 and stage in ("login", "login_outer"):
                # falls back to the default credentials; errors there end the query
                if srv.creds == sess.DEFAULTS["tapo"] and k == len(codes) - 1:
                    return {"ok"}
                rest = codes[k + 1:]
                if rest:
                    c2 = hist.classify(rest[0][1])
                    return {"AuthenticationError"} if c2 == "AuthenticationError" else {"KasaException"}
                final = "AuthenticationError"
                continue
            return {cls}
        if final:
            return {final}
        return {"ok"} if good else {"AuthenticationError"}

    def finish(st):
        st.server.script.clear()
        st.server.plaintext = False

    return hist.run_history(ctx, p, build, event, expect, finish=finish)
