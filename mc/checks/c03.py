"""C03: every fault sequence against every transport; attempts, exception kinds, recovery."""

from __future__ import annotations

from mc import core, hist, net, sess
from mc.core import Violation

prepare = sess.prepare
BOUNDS = {
    "quick": "fault sequences of length <= min(retries+1, 3) over the full fault alphabet of each transport at every exchange (handshake, login, request), retries 0..3, cold and warm session, every transport; device error code sequences of every class; malformed answers at the protocol level",
    "thorough": "sequences of length <= 4 over the full alphabet",
}

RETRY_NET = ["disc", "lost", "oserr", "refused"]
TIMEOUTS = ["hang", "losthang", "servertimeout"]
PERM = ["s404", "s401", "clienterr", "payload", "weird"]
BODY = ["garbage", "empty", "emptyjson", "jsonlist", "noresp", "resnull", "resnotb64", "resjunk", "errstr"]
ALL = RETRY_NET + TIMEOUTS + ["s500", "s403", "s503"] + PERM + BODY
SMALL = ["disc", "losthang", "s500", "s403", "garbage"]
TCP_CONN = ["refused", "unreach", "hostdown", "netunreach", "reset", "weird", "hang"]
TCP_REPLY = ["eof", "reset", "hang", "garbage"]
CODES = [9999, 1002, 1112, -1001, -40401, -40413, -1501, 1111, -1005, 1100, 1003, -40412, -1301, 1003001, -987654]
HTTP_KINDS = [k for k in sess.KINDS if k != "xor"]

# answers a device could give at the protocol level, in place of a good one
ODD = [[], "x", 7, {}, {"error_code": 0, "result": []}, {"error_code": 0, "result": {"responses": []}}, {"error_code": 0, "result": {"responses": None}},
       {"error_code": 0, "result": {"responses": [{}]}}, {"error_code": 0, "result": {"responses": [{"method": "getEcho"}]}},
       {"error_code": 0, "result": {"responses": [3]}}, {"error_code": "a", "result": {}}, {"error_code": None, "result": {}}, {"result": {"x": 1}},
       {"error_code": 0, "result": {"responses": [{"method": "get_echo", "error_code": "z"}]}}]


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for kind in HTTP_KINDS:
        for r in range(4):
            for warm in (0, 1):
                out.append(dict(name="full", kind=kind, retry=r, warm=warm, faults=ALL, budget=min(r + 1, 3 if th else 2)))
                out.append(dict(name="long", kind=kind, retry=r, warm=warm, faults=["disc", "losthang", "s403"], budget=r + 1))
        if sess.KINDS[kind][1] != "iot":
            for r in range(4):
                out.append(dict(name="codes", kind=kind, retry=r, warm=1, faults=[], budget=0, codes=CODES, ncodes=min(r + 1, 4 if th else 2)))
            out.append(dict(name="codes-mixed", kind=kind, retry=3, warm=1, faults=["disc", "losthang"], budget=2, codes=[9999, -1501, -1301], ncodes=2))
        out.append(dict(name="odd", kind=kind, retry=1, warm=1, faults=["disc"], budget=1, odd=True))
    for r in range(4):
        for warm in (0, 1):
            out.append(dict(name="tcp", kind="xor", retry=r, warm=warm, faults=TCP_REPLY, connect=TCP_CONN, budget=r + 1))
    return out


def run(ctx, p):
    from kasa import AuthenticationError, DeviceError, TimeoutError as KTimeout

    kind, r = p["kind"], p["retry"]
    outcome = []

    async def main(loop):
        n = net.Net(loop, ctx)
        state = {"app": None, "codes": [], "sent": []}

        def app(req):
            if state["app"] is not None:
                return state["app"](req)
            if state["codes"] and n.fault_log[-1][0] == "ok":
                c = ctx.pick([0] + state["codes"], "code") if len(state["sent"]) < p["ncodes"] else 0
                if c:
                    state["sent"].append(c)
                    n.fault_log.append((f"code{c}", None))
                    return {"error_code": c}
            return sess.echo_app(req)

        st = sess.Stack(n, kind, app=app)
        if p["warm"]:
            k, ex = await sess.run_query(ctx, loop, st, 1, 0, outcome)
            if k != "ok":
                raise Violation(f"healthy query failed: {ex}", "healthy query failed")
        wire0, log0, apps0, conns0 = len(n.http_log), len(n.fault_log), len(st.server.apps), len(n.conns)
        n.http_faults = p["faults"]
        n.connect_faults = p.get("connect", [])
        state["codes"] = p.get("codes", [])
        # at this point an answer with an empty body is a well-formed empty answer for plain transports
        if kind == "token":
            n.http_fault_filter = lambda req, names: [x for x in names if x not in ("jsonnull", "noresp", "resnull", "resnotb64", "resjunk") or "token" not in req.query]
        if p.get("odd"):
            shape = ctx.pick(range(len(ODD)), "odd")
            multi = ctx.pick([False, True], "multi") if st.fam != "iot" else False
            if st.fam == "iot":
                state["app"] = lambda req: [[], "x", 7, {}][shape % 4]
            else:
                state["app"] = lambda req: ODD[shape]
            from kasa import KasaException
            q = {"getEcho": {"echo": {"tag": 1}}} if st.fam == "cam" else {"get_echo": {"tag": 1}} if st.fam == "smart" else {"t": {"q": {}}}
            if multi:
                q = {**q, "getOther": {"other": {}}, "get_third": None}
            try:
                await st.proto.query(q, retry_count=r)
                outcome.append("value")
            except KasaException as ex:
                outcome.append(type(ex).__name__)
            except Violation:
                raise
            except Exception as ex:
                raise Violation(f"answer {ODD[shape]!r} raised {type(ex).__name__}: {ex}", f"raised {type(ex).__name__}") from ex
            state["app"] = None
        else:
            k, ex = await sess.run_query(ctx, loop, st, 2, r, outcome)
            judge(k, ex, n, st, wire0, log0, apps0, conns0, state)
        n.http_faults = []
        n.connect_faults = []
        state["codes"] = []
        k, ex = await sess.run_query(ctx, loop, st, 3, 3, outcome)
        if k != "ok":
            raise Violation(f"query to a healthy device after the failed one ended with {k}: {ex}", "no recovery")
        if kind not in ("xor", "linkie"):
            discarded(n, log0)
        await st.proto.close()
        if any(not s.closed for s in n.sessions) or n.open_conns():
            raise Violation("left open after close", "leak")
        return tuple(outcome)

    def discarded(n, log0):
        """After every fault other than a plain connection error the next request opens a session."""
        order = {id(rq): i for i, rq in enumerate(n.http_log)}
        req = None
        for name, rq in n.fault_log[log0:]:
            req = rq if rq is not None else req
            if name == "ok" or name in RETRY_NET or isinstance(req, str) or req is None:
                continue
            if req.path.endswith("/handshake2") and name in BODY:
                continue  # the body is of no interest
            nxt = order[id(req)] + 1
            if nxt < len(n.http_log):
                x = n.http_log[nxt]
                opens = x.path.endswith("/handshake1") or b'"handshake"' in x.body or b'"login"' in x.body and b"digest_passwd" not in x.body
                if not opens:
                    raise Violation(f"{name} on {req.path} was followed by {x.path} in the same session", "session kept")

    def judge(k, ex, n, st, wire0, log0, apps0, conns0, state):
        log = [name for name, _ in n.fault_log[log0:]]
        bad = [x for x in log if x != "ok"]
        # bounded attempts: no stage is entered more than retries+1 times
        stages = {}
        for rq in n.http_log[wire0:]:
            body = rq.body
            st_ = rq.path.rsplit("/", 1)[-1] if rq.path.startswith("/app/") else "req"
            if rq.path in ("/app", "/"):
                st_ = "token" if "token" in rq.query else ("login" if b'"login"' in body else "other")
                if b'"handshake"' in body:
                    st_ = "handshake"
                if st_ == "login" and b"digest_passwd" not in body and b'"hashed"' not in body:
                    st_ = "hs1"
            stages[st_] = stages.get(st_, 0) + 1
        for s_, cnt in stages.items():
            lim = (r + 1) * (2 if s_ == "hs1" or s_ == "other" or s_ == "login" else 1)
            if cnt > lim:
                raise Violation(f"{cnt} requests of stage {s_} with {r} retries", "too many attempts")
        if kind == "xor":
            if len(n.conns) - conns0 > r + 1 or sum(1 for x in n.fault_log[log0:] if x[1] == "connect") > r + 1 or len(st.server.apps) - apps0 > r + 1:
                raise Violation("more attempts than retries+1", "too many attempts")
        perm = set(PERM) | {"s503"} if kind not in ("linkie", "xor") else set()
        if kind == "xor":
            for i, (name, what) in enumerate(n.fault_log[log0:]):
                if what == "connect" and name in ("refused", "unreach", "hostdown") and i != len(log) - 1:
                    raise Violation(f"connection attempted again after {name}: {log}", "retry after permanent error")
        for i, x in enumerate(log):
            if x in perm and i != len(log) - 1:
                raise Violation(f"request repeated after permanent error {x}: {log}", "retry after permanent error")
            if x.startswith("code"):
                cls = hist.classify(int(x[4:]))
                if st.fam == "cam" and x in ("code1003001", "code-987654"):
                    continue  # answer to a batch: the methods are then asked one at a time
                if cls != "retry" and i != len(log) - 1:
                    raise Violation(f"request repeated after error code {x}: {log}", "retry after permanent code")
        last = next((x for x in reversed(log) if not (x == "ok" and log[-1].startswith("code"))), None)
        codes = [x for x in log if x.startswith("code")]
        if k == "ok":
            if bad and bad[-1] in perm:
                raise Violation("succeeded after a permanent error", "retry after permanent error")
            return
        # gave up: was it allowed to?
        if not bad:
            raise Violation(f"query failed without any fault: {k} {ex}", "healthy query failed")
        final = bad[-1]
        retryable = set(RETRY_NET + TIMEOUTS)
        if kind == "xor":
            retryable = {"eof", "reset", "hang", "garbage", "weird", "netunreach"}
        if kind == "linkie":
            retryable = set(ALL)
        attempts_failed = len(bad)
        if all(x in retryable or x.startswith("code") and hist.classify(int(x[4:])) == "retry" for x in bad) and attempts_failed <= r:
            raise Violation(f"gave up after {attempts_failed} retryable faults {bad} with {r} retries: {k}", "gave up early")
        if kind != "linkie":
            timeouts = TIMEOUTS if kind != "xor" else ["hang"]
            if final in timeouts and not isinstance(ex, KTimeout):
                raise Violation(f"the last fault was {final} but {k} was raised", "timeout kind")
            if final in RETRY_NET + PERM and isinstance(ex, KTimeout):
                raise Violation(f"the last fault was {final} but {k} was raised", "timeout kind")
        if final in RETRY_NET + PERM + TIMEOUTS + ["s500", "s503"] and isinstance(ex, AuthenticationError):
            raise Violation(f"authentication error after {final}", "spurious auth error")
        if final.startswith("code"):
            cls = hist.classify(int(final[4:]))
            if cls == "AuthenticationError" and not isinstance(ex, AuthenticationError):
                raise Violation(f"{final} raised {k}", "auth kind")
            if cls != "AuthenticationError" and not isinstance(ex, DeviceError):
                raise Violation(f"{final} raised {k}", "device error kind")
            if cls == "AuthenticationError" and codes and len(codes) and codes[-1] != final:
                raise Violation("order", "order")

    return core.run_loop(ctx, main)
