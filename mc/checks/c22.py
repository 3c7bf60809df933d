"""C22: two devices behind one caller-supplied HTTP session."""

from __future__ import annotations

import asyncio

from mc import core, net, sess
from mc.core import Violation

prepare = sess.prepare
BOUNDS = {
    "quick": "2 devices (every ordered pair of the HTTP transports) on one session, each: query, query, close, query again; all completion orders of their HTTP exchanges (request processing and reply delivery separately) with <=2 reorderings/faults; 3 devices for KLAP/AES",
    "thorough": "<=4 reorderings/faults",
}
KINDS = ["klap1-iot", "klap2-smart", "klap2-https", "aes1", "aes2", "cam", "cam-plain", "token", "linkie"]


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for a in KINDS:
        for b in KINDS:
            both = a[:3] in ("kla", "aes") and b[:3] in ("kla", "aes")
            out.append(dict(name="pair", kinds=[a, b], faults=[], budget=(4 if th else 3) if both else (3 if th else 2), steps=["q", "q"]))
            out.append(dict(name="body", kinds=[a, b], faults=[], budget=3 if th else 2 if both else 1, steps=["q", "q"], body=True))
            out.append(dict(name="close", kinds=[a, b], faults=[], budget=3 if th else 2 if both else 1, steps=["q", "close", "q"]))
            out.append(dict(name="faults", kinds=[a, b], faults=["losthang", "s403", "s500"], budget=3 if th else 2 if both else 1, steps=["q", "q"]))
    for a in ("klap1-iot", "klap2-smart", "aes2"):
        out.append(dict(name="three", kinds=[a, a, "aes1"], faults=[], budget=3 if th else 2, steps=["q", "q"]))
    return out


def run(ctx, p):
    from kasa import KasaException

    async def main(loop):
        import aiohttp

        n = net.Net(loop, ctx)
        session = aiohttp.ClientSession(cookie_jar=aiohttp.CookieJar(unsafe=True, quote_cookie=False))
        stacks = [sess.Stack(n, k, host=f"10.0.0.{i + 1}", http_client=session) for i, k in enumerate(p["kinds"])]
        for s in stacks:
            s.server.gaps_ok = True
        n.http_faults = p["faults"]
        n.http_two_phase = not p.get("body")
        n.http_body_phase = bool(p.get("body"))
        loop.reorder = True
        res = {}
        owner = {s.host: i for i, s in enumerate(stacks)}

        async def dev(i):
            st = stacks[i]
            for j, step in enumerate(p["steps"]):
                if step == "close":
                    await st.proto.close()
                    if session.closed:
                        raise Violation("closing one device closed the shared session", "session closed")
                    continue
                q, want = st.query_for(10 * i + j)
                try:
                    r = await st.proto.query(q)
                except KasaException as ex:
                    res[(i, j)] = (type(ex).__name__, str(ex))
                    ctx.note("dev", i, type(ex).__name__)
                    continue
                except Violation:
                    raise
                except Exception as ex:
                    raise Violation(f"device {i} raised {type(ex).__name__}: {ex}", f"raised {type(ex).__name__}") from ex
                if r != want:
                    raise Violation(f"device {i} got {r!r} for {q!r}", "wrong answer")
                res[(i, j)] = ("ok", "")
                ctx.note("dev", i, "ok")

        tasks = [loop.create_task(dev(i)) for i in range(len(stacks))]
        await asyncio.gather(*tasks)
        for i, st in enumerate(stacks):
            mine = [x for x, r in n.fault_log if x != "ok" and not isinstance(r, str) and r.host == st.host]
            failed = [k for k, v in res.items() if k[0] == i and v[0] != "ok"]
            if len(failed) > len(mine):
                raise Violation(f"device {i} ({st.kind}) failed {[res[f] for f in failed]} with faults {mine} of its own", "disturbed")
            del failed
        for req in n.http_log:
            for name, val in req.cookies.items():
                if name == "TP_SESSIONID" and not val.endswith("-" + req.host):
                    raise Violation(f"{req.host} received the session cookie {val}", "foreign cookie")
            tok = req.query.get("token")
            if tok and not tok.endswith(req.host):
                raise Violation(f"{req.host} received the token {tok}", "foreign token")
        n.http_faults = []
        loop.reorder = False
        out = []
        for i, st in enumerate(stacks):
            k, ex = await sess.run_query(ctx, loop, st, 90 + i, 3, out)
            if k != "ok":
                raise Violation(f"final query of device {i} ended with {k}: {ex}", "no recovery")
            await st.proto.close()
        if session.closed:
            raise Violation("the shared session was closed", "session closed")
        if [s for s in n.sessions if s is not session and not s.closed]:
            raise Violation("an extra HTTP session was left open", "leak")
        if any(r.session is not session for r in n.http_log):
            raise Violation("a request did not use the supplied session", "other session")
        await session.close()
        return tuple(sorted((k, v[0]) for k, v in res.items()))

    return core.run_loop(ctx, main)
