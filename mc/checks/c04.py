"""C04: KLAP session histories against an independent KLAP device."""

from __future__ import annotations

import asyncio

from mc import core, net, servers, sess
from mc.core import Violation

prepare = sess.prepare

BOUNDS = {
    "quick": "histories of 3 steps (4 for the event alphabet alone) x 9 events x fault budget 1-2 at every exchange x v1/v2 x iot/smart/https x credential matrix x initial sequence extremes",
    "thorough": "histories of 4-5 steps, fault budget 2-3",
}
EVENTS = ["none", "drop", "before_expiry", "after_expiry", "reset", "close", "newcreds_bad", "newcreds_default", "newcreds_own"]
FAULTS = ["disc", "lost", "hang", "losthang", "s403", "s500", "garbage", "empty", "oserr", "payload", "refused", "clienterr", "weird"]
FAULTS2 = ["disc", "losthang", "s403", "s500", "garbage"]


def scenarios(tier):
    th = tier == "thorough"
    out = []
    kinds = ["klap1-iot", "klap2-iot", "klap2-smart", "klap2-https"]
    for kind in kinds:
        # event histories without faults
        out.append(dict(name="events", kind=kind, n=5 if th else 4, budget=0, faults=[], events=EVENTS, dev="own", cli="own"))
        # faults at every exchange
        for ev in EVENTS[:6]:
            evs = ["none", ev] if ev != "none" else ["none"]
            out.append(dict(name="faults", kind=kind, n=3, budget=2 if th else 1, faults=FAULTS, events=evs, dev="own", cli="own"))
            out.append(dict(name="faults2", kind=kind, n=3, budget=3 if th else 2, faults=FAULTS2, events=evs, dev="own", cli="own"))
        out.append(dict(name="cancel", kind=kind, n=3, budget=3 if th else 2, faults=["hang", "s403"], events=["none", "drop"], dev="own", cli="own", cancel=2))
        # credential matrix
        for dev in ("own", "other", "kasa", "tapo", "blank"):
            for cli in ("own", "none", "blank", "hash", "emptyuser", "kasa"):
                out.append(dict(name="creds", kind=kind, n=3, budget=1, faults=["s403", "disc", "s500"], events=["none", "drop", "reset"], dev=dev, cli=cli))
        # sequence extremes
        for seq in (2**31 - 1, 2**31 - 2, 2**31 - 3, -1, -2, 0, -(2**31)):
            out.append(dict(name="seq", kind=kind, n=4, budget=1, faults=["disc", "s403", "lost"], events=["none"], dev="own", cli="own", seq=seq))
        for tmo in (0, 600, 1200, 1201, 3600):
            out.append(dict(name="timeout", kind=kind, n=3, budget=0, faults=[], events=["none", "before_expiry", "after_expiry", "half"], dev="own", cli="own", tmo=tmo))
    return out


def run(ctx, p):
    from kasa.exceptions import AuthenticationError

    outcome = []
    seq = p.get("seq")

    async def main(loop):
        n = net.Net(loop, ctx)
        dev_creds = dict(own=sess.OWN, other=sess.OTHER, **sess.DEFAULTS)[p["dev"]]
        cli = p["cli"]
        kw = {}
        if cli == "own":
            creds = sess.OWN
        elif cli == "none":
            creds = None
        elif cli == "blank":
            creds = ("", "")
        elif cli == "emptyuser":
            creds = ("", "pw")
        elif cli == "kasa":
            creds = sess.DEFAULTS["kasa"]
        else:
            import base64
            creds = None
            ver = int(sess.KINDS[p["kind"]][0][4])
            kw["chash"] = base64.b64encode(servers.klap_auth(ver, *sess.OWN)).decode()
        st = sess.Stack(n, p["kind"], creds=creds, dev_creds=dev_creds, **kw)
        srv = st.server
        if "tmo" in p:
            srv.timeout_cookie = p["tmo"]
        cli_creds = sess.OWN if cli in ("own", "hash") else {"none": ("", ""), "blank": ("", ""), "emptyuser": ("", "pw"), "kasa": sess.DEFAULTS["kasa"]}[cli]

        def acceptable():
            """Does the device hold credentials the client can prove?"""
            v = srv.version
            return srv.auth in {servers.klap_auth(v, *c) for c in (cli_creds, sess.DEFAULTS["kasa"], sess.DEFAULTS["tapo"], sess.DEFAULTS["blank"], sess.DEFAULTS["cam"],
                                                                   ("admin", "21232f297a57a5a743894a0e4a801fc3"))}

        life = p.get("tmo") or 86400
        servers.IV_SEQ_OVERRIDE[:] = [seq, None]
        n.http_faults = p["faults"]
        loop.cancel_budget = p.get("cancel", 0)
        for i in range(p["n"]):
            ev = ctx.pick(p["events"], "event") if i else "none"
            ctx.note("event", ev)
            if ev == "drop":
                srv.drop_sessions()
            elif ev == "before_expiry":
                loop._now += max(0, life - 1200 - 5)
            elif ev == "half":
                loop._now += life / 2 + 1
            elif ev == "after_expiry":
                loop._now += life + 1
            elif ev == "reset":
                await st.transport.reset()
            elif ev == "close":
                await st.proto.close()
            elif ev.startswith("newcreds"):
                srv.set_creds({"bad": sess.OTHER, "default": sess.DEFAULTS["tapo"], "own": sess.OWN}[ev.split("_")[1]])
                srv.drop_sessions()
            used = ctx.used
            apps = len(srv.apps)
            wire = len(n.http_log)
            kind, ex = await sess.run_query(ctx, loop, st, i, 3, outcome, cancel=bool(p.get("cancel")))
            clean = ctx.used == used
            if clean:
                judge(kind, ex, acceptable(), i, srv, apps)
            if isinstance(ex, AuthenticationError):
                if acceptable() and clean:
                    raise Violation("authentication error although the credentials match", "spurious auth error")
                paths = [r.path for r in n.http_log[wire:]]
                if clean and any(not x.endswith("handshake1") for x in paths[-1:]):
                    raise Violation(f"traffic after a failed device proof: {paths}", "traffic after auth failure")
            if kind == "ok" and not acceptable():
                # only possible if the session predates the credential change; the device dropped it
                raise Violation("query succeeded although the device cannot prove the credentials", "accepted impostor")
        n.http_faults = []
        loop.cancel_budget = 0
        apps = len(srv.apps)
        kind, ex = await sess.run_query(ctx, loop, st, 99, 3, outcome)
        judge(kind, ex, acceptable(), 99, srv, apps)
        if any(c != "ok" for c in outcome):
            pass
        await st.proto.close()
        if any(not s.closed for s in n.sessions):
            raise Violation("HTTP session left open after close", "leak")
        return tuple(outcome)

    def judge(kind, ex, good, i, srv, apps):
        if good:
            if kind != "ok":
                raise Violation(f"query {i} without any fault failed: {kind}: {ex}", "healthy query failed")
            if len(srv.apps) != apps + 1:
                raise Violation(f"query {i} was executed {len(srv.apps) - apps} times", "executed not once")
        elif kind != "AuthenticationError":
            raise Violation(f"query {i} to a device with unknown credentials ended with {kind}: {ex}", "wrong creds not reported")

    try:
        return core.run_loop(ctx, main)
    finally:
        servers.IV_SEQ_OVERRIDE[:] = [None, None]
