"""C06: camera TLS transport histories against an independent camera."""

from __future__ import annotations

import base64
import json

from mc import hist, sess

prepare = sess.prepare
BOUNDS = {
    "quick": "histories of 3-4 queries with an event between them (session loss in two forms, expiry, reset, close, firmware switching login kind and password hash, credential changes, blocked, wrong proof, error codes at each stage), fault budget 1 (all faults) / 2 (5 faults), credential matrix",
    "thorough": "histories of 4-5 queries, fault budget 2-3",
}
FAULTS = ["disc", "lost", "hang", "losthang", "s403", "s401", "s500", "garbage", "empty", "oserr", "payload", "refused", "clienterr", "weird",
          "emptyjson", "jsonlist", "jsonnull", "noresp", "resnull", "resnotb64", "resjunk", "errweird", "errstr", "ssl"]
FAULTS2 = ["disc", "losthang", "s500", "s403", "resjunk"]
CODES = [9999, 1002, 1112, -1001, -40401, -40413, -1501, 1111, -1005, 1100, 1003, -40412, -1301, -40404, -987654]
CREDS = {"own": sess.OWN, "other": sess.OTHER, "adminpw": ("admin", sess.OWN[1]), "default": ("admin", "admin")}


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for kind in ("cam", "cam-md5", "cam-plain"):
        base = dict(kind=kind, dev="own", cli="own", faults=[], budget=0)
        out.append({**base, "name": "events", "n": 5 if th else 4,
                    "events": ["none", "drop", "drop500", "drop500empty", "after_expiry", "reset", "close", "mode", "creds:other", "creds:own", "creds:adminpw", "blocked", "impostor", "hash", "plainreply"]})
        for dev in ("own", "adminpw"):
            for st in ("hs1", "hs2", "request"):
                out.append({**base, "dev": dev, "name": "codes", "n": 4 if th else 3, "events": ["none", "reset"] + [f"err:{st}:{c}" for c in CODES]})
        out.append({**base, "name": "switch", "n": 4, "budget": 1, "faults": FAULTS2, "events": ["mode", "drop500"]})
        for ev in ["none", "drop", "drop500", "drop500empty", "reset", "mode"]:
            evs = ["none", ev] if ev != "none" else ["none"]
            out.append({**base, "name": "faults", "n": 3, "budget": 2 if th else 1, "faults": FAULTS, "events": evs})
            out.append({**base, "name": "faults2", "n": 3, "budget": 3 if th else 2, "faults": FAULTS2, "events": evs})
        out.append({**base, "name": "cancel", "n": 3, "budget": 3 if th else 2, "faults": ["hang", "s500"], "events": ["none", "drop"], "cancel": 2})
        for dev in CREDS:
            for cli in ("own", "none", "blank", "hash", "adminpw", "default"):
                out.append({**base, "name": "creds", "n": 3, "budget": 1, "faults": ["disc", "lost", "losthang", "s500"], "events": ["none", "drop", "reset"], "dev": dev, "cli": cli})
    return out


def run(ctx, p):
    cli = p["cli"]
    cc = {"own": sess.OWN, "hash": sess.OWN, "adminpw": CREDS["adminpw"], "default": CREDS["default"]}.get(cli)

    def build(n):
        kw = {}
        creds = cc
        if cli == "hash":
            creds = None
            kw["chash"] = base64.b64encode(json.dumps({"un": sess.OWN[0], "pwd": sess.OWN[1]}).encode()).decode()
        elif cli == "blank":
            creds = ("", "")
        st = sess.Stack(n, p["kind"], creds=creds, dev_creds=CREDS[p["dev"]], **kw)
        return st

    def event(ev, st, loop):
        srv = st.server
        parts = ev.split(":")
        if ev in ("drop500", "drop500empty"):
            srv.expired_how = "500" if ev == "drop500" else "500empty"
            srv.drop_sessions()
        elif ev == "mode":
            srv.mode = "insecure" if srv.mode == "secure" else "secure"
            srv.drop_sessions()
        elif ev == "hash":
            srv.set_creds((srv.user, srv.pw), "md5" if srv.hash_kind == "sha256" else "sha256")
            srv.drop_sessions()
        elif ev == "plainreply":
            srv.plain_replies = not srv.plain_replies
        elif ev == "blocked":
            srv.blocked = not srv.blocked
            srv.drop_sessions()
        elif ev == "impostor":
            srv.wrong_confirm = not srv.wrong_confirm
            srv.drop_sessions()
        elif parts[0] == "creds":
            srv.set_creds(CREDS[parts[1]], srv.hash_kind)
            srv.drop_sessions()
        elif parts[0] == "err":
            srv.script.setdefault(parts[1], []).append(int(parts[2]))

    def expect(st, before):
        srv = st.server
        user, pw = cc or ("admin", "admin")
        good = srv.pw == pw and srv.user in (user, "admin")
        if srv.mode == "secure" and srv.wrong_confirm:
            good = False
        codes = srv.scripted[before["scripted"]:]
        have = any(s for s in srv.sessions.values())
        if any(stage == "hs1" for stage, c in codes):
            # any refusal of the first step may be taken for a refusal of the user name
            return {"AuthenticationError", "ok", "DeviceError"}
        if srv.blocked and not have:
            return {"DeviceError"} if cc else {"AuthenticationError", "DeviceError"}
        for stage, c in codes:
            cls = hist.classify(c)
            if stage == "hs2" and c == -40413:
                return {"AuthenticationError"}
            if cls != "retry":
                return {cls}
        if srv.user == "admin" and cc and cc[0] != "admin":
            st.fell_back = True
        elif getattr(st, "fell_back", False) and good:
            # the client keeps the fall-back user name once it worked; a camera that changes its
            # user name back is outside the property
            return {"ok", "AuthenticationError"}
        return {"ok"} if good else {"AuthenticationError"}

    def finish(st):
        st.server.script.clear()

    return hist.run_history(ctx, p, build, event, expect, finish=finish)
