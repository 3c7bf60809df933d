"""C02: concurrent callers on one device; serialisation, independence, no lost lock."""

from __future__ import annotations

import asyncio

from mc import core, net, sess
from mc.core import Violation

prepare = sess.prepare
BOUNDS = {
    "quick": "2 callers x 2 queries and 3 callers x 1 query, every start position relative to the I/O of the others, <=2-3 deviations (fault, cancellation of any caller at any suspension point incl. together with an I/O completion, start/I-O reordering), warm and cold session, parent and children",
    "thorough": "one more deviation and 3 callers x 2 queries",
}
RETRY = {"disc", "lost", "oserr", "refused", "hang", "losthang"}
HTTP_KINDS = [k for k in sess.KINDS if k != "xor"]


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for kind in sess.KINDS:
        x = 1 if th else 0
        fam = sess.KINDS[kind][1]
        faults = ["losthang", "disc"] if kind != "xor" else ["hang", "eof"]
        perm = ["s500"] if kind != "xor" else []
        for warm in (0, 1):
            x = (1 if warm and kind in ("xor", "klap2-smart", "aes2", "cam", "linkie") else 0) + (1 if th else 0)
            out.append(dict(name="cancel2", kind=kind, callers=2, each=2, warm=warm, faults=[], budget=2 + x, cancel=2))
            out.append(dict(name="cancel3", kind=kind, callers=3, each=1, warm=warm, faults=[], budget=2 + x, cancel=2))
            out.append(dict(name="faults2", kind=kind, callers=2, each=2 if th else 1, warm=warm, faults=faults + perm, budget=2 + x, cancel=1))
            out.append(dict(name="faults3", kind=kind, callers=3, each=1, warm=warm, faults=faults[:1] + perm, budget=2 + x, cancel=1))
        x = 1 if th else 0
        if kind != "xor":
            out.append(dict(name="phase", kind=kind, callers=2, each=1, warm=1, faults=[], budget=2 + x, cancel=2, two=True))
        if kind in ("klap2-smart", "aes2", "cam", "token"):
            out.append(dict(name="children", kind=kind, callers=3, each=1, warm=1, faults=faults[:1], budget=2 + x, cancel=1, children=True))
        if fam == "smart" or fam == "cam":
            out.append(dict(name="multi", kind=kind, callers=2, each=1, warm=1, faults=faults[:1], budget=2 + x, cancel=1, multi=True))
    return out


def cam_app(req):
    """Camera hub: executes the controlChild requests of a batch."""
    if req.get("method") == "multipleRequest":
        out = []
        for r in req["params"]["requests"]:
            if r["method"] == "controlChild":
                cc = r["params"]["childControl"]
                inner = cc["request_data"]
                out.append({"method": "controlChild", "error_code": 0, "result": {"response_data": {
                    "error_code": 0, "result": {**(inner.get("params") or {}), "child": cc["device_id"]}}}})
            else:
                out.append({"method": r["method"], **sess.echo_one(r)})
        return {"error_code": 0, "result": {"responses": out}}
    return sess.echo_app(req)


def run(ctx, p):
    from kasa import KasaException

    results = {}

    async def main(loop):
        n = net.Net(loop, ctx)
        st = sess.Stack(n, p["kind"], app=cam_app)
        st.server.gaps_ok = True
        outcome = []
        if p["warm"]:
            k, ex = await sess.run_query(ctx, loop, st, 900, 0, outcome)
            if k != "ok":
                raise Violation(f"healthy query failed: {ex}", "healthy query failed")
        protos = {i: st.proto for i in range(p["callers"])}
        if p.get("children"):
            W = sess.child_wrapper(st.fam == "cam")
            for i in range(p["callers"] - 1):
                protos[i] = W(f"C{i}", st.proto)
        log0 = len(n.fault_log)
        n.http_faults = p["faults"]
        n.http_two_phase = bool(p.get("two"))
        loop.reorder = True
        loop.cancel_budget = p["cancel"]
        st.server.max_inflight = 0
        done = loop.create_future()
        left = [p["callers"]]

        async def caller(i):
            for j in range(p["each"]):
                tag = 100 * (i + 1) + j
                q, want = st.query_for(tag)
                if p.get("multi"):
                    if st.fam == "cam":
                        q = {"getA": {"a": {"tag": tag}}, "getB": {"b": {"tag": tag + 50}}}
                        want = q
                    else:
                        q = {"get_a": {"tag": tag}, "get_b": {"tag": tag + 50}}
                        want = q
                if i in range(p["callers"] - 1) and p.get("children"):
                    if st.fam == "cam":
                        q = {"get_echo": {"tag": tag}}
                    want = {"get_echo": {"tag": tag, "child": f"C{i}"}}
                ctx.note("call", i, j)
                try:
                    res = await protos[i].query(q)
                except KasaException as ex:
                    results[(i, j)] = type(ex).__name__
                    ctx.note("caller", i, type(ex).__name__)
                    continue
                except asyncio.CancelledError:
                    results[(i, j)] = "cancelled"
                    ctx.note("caller", i, "cancelled")
                    raise
                except Violation:
                    raise
                except Exception as ex:
                    raise Violation(f"caller {i} got {type(ex).__name__}: {ex}", f"raised {type(ex).__name__}") from ex
                if res != want:
                    raise Violation(f"caller {i} asked {q!r} and got {res!r}", "wrong answer")
                results[(i, j)] = "ok"
                ctx.note("caller", i, "ok")

        tasks = []

        def finish(t):
            left[0] -= 1
            if not t.cancelled() and t.exception():
                if not done.done():
                    done.set_exception(t.exception())
            if left[0] == 0 and not done.done():
                done.set_result(None)

        def start(i):
            t = loop.create_task(caller(i), name=f"caller{i}")
            tasks.append(t)
            loop.cancellable(f"c{i}", t)
            t.add_done_callback(finish)

        for i in range(p["callers"]):
            loop.post(f"start{i}", ("go", lambda i=i: start(i)))
        await done
        if st.server.max_inflight > 1:
            raise Violation(f"{st.server.max_inflight} requests outstanding at once", "overlap")
        failed = [k for k, v in results.items() if v not in ("ok", "cancelled")]
        perm = [x for x, _ in n.fault_log[log0:] if x not in RETRY and x not in ("ok", "eof", "hang", "reset")]
        if len(failed) > len(perm):
            raise Violation(f"callers {failed} failed ({[results[f] for f in failed]}) with only {len(perm)} permanent faults: {n.fault_log[log0:]}", "innocent caller failed")
        cancels = sum(1 for v in results.values() if v == "cancelled")
        if cancels > p["cancel"] - loop.cancel_budget:
            raise Violation("a caller nobody cancelled was cancelled", "spurious cancel")
        n.http_faults = []
        loop.cancel_budget = 0
        loop.reorder = False
        n.http_two_phase = False
        k, ex = await sess.run_query(ctx, loop, st, 990, 3, outcome)
        if k != "ok":
            raise Violation(f"query after all callers finished ended with {k}: {ex}", "no recovery")
        await st.proto.close()
        if any(not s.closed for s in n.sessions) or n.open_conns():
            raise Violation("left open after close", "leak")
        return tuple(sorted(results.items()))

    return core.run_loop(ctx, main)
