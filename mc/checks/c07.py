"""C07: TLS-token and Linkie transport histories against independent servers."""

from __future__ import annotations

import base64
import json

from mc import hist, servers, sess

prepare = sess.prepare
BOUNDS = {
    "quick": "histories of 3-4 queries with an event between them (token lost, before/after expiry, reset, close, credential change, error codes of each class and unknown ones at login and request, missing code), fault budget 1 (all faults) / 2 (5 faults), credential matrix; Linkie: 4 queries, plain-JSON errors, fault budget 2-3",
    "thorough": "histories of 4-6 queries, fault budget 2-4",
}
FAULTS = ["disc", "lost", "hang", "losthang", "s403", "s500", "garbage", "empty", "oserr", "payload", "refused", "clienterr", "weird",
          "emptyjson", "jsonlist", "jsonnull", "noresp", "resnull", "errweird", "errstr", "ssl"]
FAULTS2 = ["disc", "losthang", "s500", "noresp", "errweird"]
LFAULTS = ["disc", "lost", "hang", "losthang", "s403", "s500", "garbage", "empty", "oserr", "payload", "refused", "clienterr", "weird", "emptyjson", "jsonlist"]
CODES = ["9999", "1002", "1112", "-1001", "-40401", "-40413", "-1501", "1111", "-1005", "1100", "1003", "-40412", "-1301", "-40404", "-987654", "77", "none"]
CREDS = {"own": sess.OWN, "other": sess.OTHER, "tapo": sess.DEFAULTS["tapo"], "blank": ("", "")}


def scenarios(tier):
    th = tier == "thorough"
    out = []
    base = dict(kind="token", dev="own", cli="own", faults=[], budget=0)
    out.append({**base, "name": "events", "n": 6 if th else 5, "events": ["none", "drop", "before_expiry", "after_expiry", "reset", "close", "creds:other", "creds:own", "creds:tapo"]})
    for st in ("login", "request"):
        out.append({**base, "name": "codes", "n": 4 if th else 3, "events": ["none", "reset"] + [f"err:{st}:{c}" for c in CODES]})
    out.append({**base, "name": "codes2", "n": 5 if th else 4, "events": ["drop"] + [f"err:{st}:{c}" for st in ("login", "request") for c in ("9999", "-1501", "-1301", "77")]})
    for ev in ["none", "drop", "before_expiry", "after_expiry", "reset", "creds:tapo"]:
        evs = ["none", ev] if ev != "none" else ["none"]
        out.append({**base, "name": "faults", "n": 3, "budget": 2 if th else 1, "faults": FAULTS, "events": evs})
        out.append({**base, "name": "faults2", "n": 3, "budget": 4 if th else 2, "faults": FAULTS2, "events": evs})
    out.append({**base, "name": "codefault", "n": 3, "budget": 2 if th else 1, "faults": FAULTS2, "events": ["drop"] + [f"err:{st}:{c}" for st in ("login", "request") for c in ("9999", "-1501", "77")]})
    out.append({**base, "name": "cancel", "n": 3, "budget": 3 if th else 2, "faults": ["hang", "s500"], "events": ["none", "drop"], "cancel": 2})
    for dev in CREDS:
        for cli in ("own", "none", "blank", "hash", "tapo"):
            out.append({**base, "name": "creds", "n": 3, "budget": 2, "faults": ["disc", "lost", "losthang", "s500"], "events": ["none", "drop", "reset"], "dev": dev, "cli": cli})
    lb = dict(kind="linkie", dev="own", cli="own")
    out.append({**lb, "name": "linkie", "n": 4, "faults": LFAULTS, "budget": 3 if th else 2, "events": ["none", "reset", "close"]})
    out.append({**lb, "name": "linkie-err", "n": 4, "faults": ["disc", "garbage", "losthang"], "budget": 3 if th else 2, "events": ["none", "plainerr", "plainodd"]})
    for r in range(3):
        out.append({**lb, "name": "linkie-retry", "n": 3, "faults": LFAULTS, "budget": 2, "events": ["none"], "retry": r})
    out.append({**lb, "name": "linkie-cancel", "n": 3, "faults": ["hang"], "budget": 2, "events": ["none"], "cancel": 2})
    return out


def run(ctx, p):
    ver = p["kind"]

    def build(n):
        cli = p["cli"]
        kw = {}
        creds = {"own": sess.OWN, "none": None, "blank": ("", ""), "hash": None, "tapo": sess.DEFAULTS["tapo"]}[cli]
        if cli == "hash":
            tmp = servers.TokenServer.__new__(servers.TokenServer)
            kw["chash"] = base64.b64encode(json.dumps(tmp.want(sess.OWN)).encode()).decode()
        st = sess.Stack(n, ver, creds=creds, dev_creds=CREDS[p["dev"]], **kw)
        # on this transport these bodies are well-formed empty answers to a request
        n.http_fault_filter = lambda req, names: [x for x in names if x not in ("jsonnull", "noresp", "resnull") or "token" not in req.query]
        st.server.client_creds = sess.OWN if cli == "hash" else creds or ("", "")
        return st

    def event(ev, st, loop):
        srv = st.server
        parts = ev.split(":")
        if ev == "plainerr":
            srv.plain_error = {"error": "busy"} if srv.plain_error is None else None
        elif ev == "plainodd":
            srv.plain_error = [1, "x"] if srv.plain_error is None else None
        elif parts[0] == "creds":
            srv.creds = CREDS[parts[1]]
            srv.drop_sessions()
        elif parts[0] == "err":
            srv.script.setdefault(parts[1], []).append("none" if parts[2] == "none" else int(parts[2]))

    def expect(st, before):
        srv = st.server
        if p["kind"] == "linkie":
            return {"_RetryableError", "KasaException"} if srv.plain_error is not None else {"ok"}
        good = srv.creds in (srv.client_creds, sess.DEFAULTS["tapo"])
        codes = srv.scripted[before["scripted"]:]
        final = None
        for k, (stage, c) in enumerate(codes):
            if c == "none":
                return {"KasaException", "DeviceError"}
            cls = hist.classify(c)
            if cls == "retry":
                continue
            if c == -1501 and stage == "login":
                rest = codes[k + 1:]
                if rest and rest[0][0] == "login":
                    c2 = hist.classify(rest[0][1]) if rest[0][1] != "none" else "KasaException"
                    return {"AuthenticationError"} if c2 == "AuthenticationError" else {"KasaException", "DeviceError", "ok"}
                final = "AuthenticationError" if srv.creds != sess.DEFAULTS["tapo"] else None
                continue
            return {cls}
        if final:
            return {final}
        return {"ok"} if good else {"AuthenticationError"}

    def finish(st):
        if p["kind"] == "linkie":
            st.server.plain_error = None
        else:
            st.server.script.clear()

    return hist.run_history(ctx, p, build, event, expect, finish=finish)
