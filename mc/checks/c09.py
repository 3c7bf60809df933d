"""C09: queries through child devices reach only that child and return its own answers."""

from __future__ import annotations

import copy

from mc import core, fake, sess
from mc.core import Violation

BOUNDS = {
    "quick": "every query of 1..3 methods over 7 method kinds through each of 2-3 children and the parent, in sequences of 1-2 queries, x 9 hub behaviours, SMART and camera hubs; one transport fault at each exchange",
    "thorough": "queries of up to 4 methods, sequences of 3 queries, two transport faults",
}
ASSUMPTIONS = "hub model: one answer table per child; a hub may stop a batch at its first error, omit method keys, reject the child, or answer malformed data"

FAIL, UNSUP, OFFLINE = -1008, -1002, -40407
KINDS = {
    "plain": ("get_plain", None),
    "param": ("get_param", {"x": 1}),
    "fail": ("get_fail", None),
    "unsup": ("get_unsup", {"a": "b"}),
    "weird": ("get_weird", None),
    "set": ("set_thing", {"v": 2}),
    "none": ("get_none", None),
}
BEH = ["normal", "stops", "nomethod", "offline", "noresp", "noresult", "nullresp", "text", "empty"]
# behaviours in which the hub does not deliver the child's answer
BROKEN = {"offline", "noresp", "noresult", "nullresp", "text", "empty"}


class Hub:
    def __init__(self, cam, n, beh):
        self.cam, self.beh = cam, beh
        self.children = [f"child{i}" for i in range(n)]
        self.executed = []  # (who, method, params)
        self.faults = {}
        self.exchange = 0

    def alone(self, who, method, params):
        k = method.rstrip("0123456789")
        code = {"get_fail": FAIL, "get_unsup": UNSUP, "get_weird": -123456}.get(k, 0)
        # a method failing on one child only
        if k == "get_param" and who == "child1":
            code = FAIL
        if code:
            return code, None
        if k in ("set_thing", "get_none"):
            return 0, None
        return 0, {"of": method, "who": who, "params": copy.deepcopy(params)}

    def expected(self, who, method, params):
        code, res = self.alone(who, method, params)
        if code:
            return "err", code if code != -123456 else -100000
        return "ok", res

    def one(self, who, r):
        m, prm = r["method"], r.get("params")
        self.executed.append((who, m, copy.deepcopy(prm)))
        code, res = self.alone(who, m, prm)
        out = {"error_code": code}
        if res is not None:
            out["result"] = res
        return out

    def child_answer(self, who, inner):
        """The answer of one child to an inner request."""
        if inner["method"] != "multipleRequest":
            return self.one(who, inner)
        resp = []
        for r in inner["params"]["requests"]:
            a = self.one(who, r)
            if not (self.beh == "nomethod" and r["method"].startswith("get_param")):
                a = {"method": r["method"], **a}
            resp.append(a)
            if self.beh == "stops" and a["error_code"]:
                break
        return {"error_code": 0, "result": {"responses": resp}}

    def envelope(self, dev_id, inner, key):
        """The hub's answer to one control-child request."""
        if dev_id not in self.children:
            return {"error_code": -40210}
        if self.beh == "offline" and dev_id == "child0":
            return {"error_code": OFFLINE}
        if self.beh in ("normal", "stops", "nomethod") or dev_id != "child0":
            return {"error_code": 0, "result": {key: self.child_answer(dev_id, inner)}}
        if self.beh == "noresp":
            return {"error_code": 0, "result": {"other": 1}}
        if self.beh == "noresult":
            return {"error_code": 0}
        if self.beh == "nullresp":
            return {"error_code": 0, "result": {key: None}}
        if self.beh == "text":
            return {"error_code": 0, "result": {key: "nonsense"}}
        return {"error_code": 0, "result": {key: {}}}

    async def handle(self, req, tr):
        from kasa import TimeoutError as KTimeout
        from kasa.exceptions import _ConnectionError, _RetryableError

        n = self.exchange
        self.exchange += 1
        f = self.faults.get(n)
        if f == "conn":
            raise _ConnectionError("refused")
        if f == "timeout":
            raise KTimeout("timeout")
        if f == "retry":
            raise _RetryableError("retry")
        if f == "late":  # executed, but the answer is lost
            self.answer(req)
            raise _ConnectionError("reply lost")
        return self.answer(req)

    def answer(self, req):
        m = req["method"]
        if m == "control_child":
            return self.envelope(req["params"]["device_id"], req["params"]["requestData"], "responseData")
        if m != "multipleRequest":
            return self.one("parent", req)
        resp = []
        for r in req["params"]["requests"]:
            if r["method"] == "controlChild":
                cc = r["params"]["childControl"]
                a = self.envelope(cc["device_id"], cc["request_data"], "response_data")
                inner = (a.get("result") or {}).get("response_data") or {}
                bad = a["error_code"] or (isinstance(inner, dict) and inner.get("error_code"))
            else:
                a = self.one("parent", r)
                bad = a["error_code"]
            resp.append({"method": r["method"], **a})
            if self.beh == "stops" and bad:
                break
        return {"error_code": 0, "result": {"responses": resp}}


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for cam in (False, True):
        for beh in BEH:
            for n in (1, 2, 3) + ((4,) if th else ()):
                for tgt in ("child0", "child1", "parent"):
                    out.append(dict(cam=cam, beh=beh, steps=[[tgt, n]], children=2, fault=0))
            for a in ("child0", "child1", "child2", "parent"):
                for b in ("child0", "child1", "parent"):
                    out.append(dict(cam=cam, beh=beh, steps=[[a, 2], [b, 2]], children=3, fault=0))
                    if th:
                        for c in ("child0", "child1", "parent"):
                            out.append(dict(cam=cam, beh=beh, steps=[[a, 1], [b, 2], [c, 2]], children=3, fault=0))
            for n in (1, 2):
                for tgt in ("child0", "child1", "parent"):
                    out.append(dict(cam=cam, beh=beh, steps=[[tgt, n], ["child1", 1]], children=2, fault=1))
                    if th:
                        out.append(dict(cam=cam, beh=beh, steps=[[tgt, n], ["child1", 2]], children=2, fault=2))
    return out


def run(ctx, p):
    from kasa import KasaException
    from kasa.exceptions import SmartErrorCode
    from kasa.protocols import SmartCamProtocol, SmartProtocol

    cam = p["cam"]
    hub = Hub(cam, p["children"], p["beh"])
    queries = []
    for i, (who, n) in enumerate(p["steps"]):
        kinds = [ctx.pick(list(KINDS), f"m{i}.{j}") for j in range(n)]
        q = {}
        for j, k in enumerate(kinds):
            name, params = KINDS[k]
            if cam and who == "parent":
                params = params or {"module": {}}
            q[f"{name}{j}"] = copy.deepcopy(params)
        queries.append((who, q))
    for _ in range(p["fault"]):
        at = ctx.pick([0, 1, 2, 3], "fault at")
        hub.faults[at] = ctx.pick(["conn", "timeout", "retry", "late"], "fault")
    out = []

    async def main(loop):
        tr = fake.make_transport(handler=hub.handle)
        parent = (SmartCamProtocol if cam else SmartProtocol)(transport=tr)
        wrap = sess.child_wrapper(cam)
        protos = {c: wrap(c, parent) for c in hub.children}
        protos["parent"] = parent
        for who, q in queries:
            a = len(hub.executed)
            try:
                res = await protos[who].query(copy.deepcopy(q), retry_count=3)
                out.append((who, q, res, None, hub.executed[a:]))
            except KasaException as ex:
                out.append((who, q, None, ex, hub.executed[a:]))

    core.run_loop(ctx, main)
    tag = []
    for who, q, res, ex, executed in out:
        for ewho, em, eprm in executed:
            if ewho != who:
                raise Violation(f"query through {who} executed {em} on {ewho}", "wrong child executed")
            if em not in q or (q[em] or None) != (eprm or None):
                raise Violation(f"query {q} through {who} executed {em} with {eprm!r}", "other request executed")
        broken = hub.beh in BROKEN and who == "child0"
        single = len(q) == 1
        if broken:
            if ex is not None:
                if hub.beh == "offline" and int(getattr(ex, "error_code", 0) or 0) != OFFLINE:
                    raise Violation(f"hub reported {OFFLINE} for {who} but the query raised {ex!r}", "outer error lost")
                tag.append("broken-raised")
                continue
            for m in q:
                v = res.get(m, "missing")
                if isinstance(v, SmartErrorCode) and v != SmartErrorCode.SUCCESS:
                    if hub.beh == "offline" and int(v) != OFFLINE:
                        raise Violation(f"hub reported {OFFLINE} for {who} but {m} is {v!r}", "outer error lost")
                    continue
                if hub.beh == "offline" or v is not None:
                    raise Violation(f"{who} gave no answer ({hub.beh}) but the query returned {m}: {v!r}", "answer invented")
            if set(res) != set(q):
                raise Violation(f"query {list(q)} returned entries {list(res)}", "entries differ")
            tag.append("broken-none")
            continue
        exp = {m: hub.expected(who, m, prm) for m, prm in q.items()}
        if single and next(iter(exp.values()))[0] == "err":
            code = next(iter(exp.values()))[1]
            if ex is None:
                raise Violation(f"{who} answers error {code} to {list(q)} but the query returned {res}", "error swallowed")
            if int(getattr(ex, "error_code", 0) or 0) != code:
                raise Violation(f"{who} answers error {code} to {list(q)} but the query raised {ex!r}", "wrong error")
            tag.append("err")
            continue
        if ex is not None:
            raise Violation(f"query {list(q)} through {who} ({hub.beh}) raised {ex!r}", f"raised {type(ex).__name__}")
        if set(res) != set(q):
            raise Violation(f"query {list(q)} through {who} ({hub.beh}) returned entries {list(res)}", "entries differ")
        for m, (kind, val) in exp.items():
            got = res[m]
            if kind == "err":
                if not isinstance(got, SmartErrorCode) or int(got) != val:
                    raise Violation(f"{who}.{m}: device error {val} but entry {got!r}", "entry not the error")
            elif got != val or isinstance(got, SmartErrorCode):
                raise Violation(f"{who}.{m}: device answers {val!r} but entry is {got!r}", "entry differs")
        sets = {m for m in q if m.startswith("set")}
        for m in sets:
            cnt = sum(1 for e in executed if e[1] == m)
            lost = sum(1 for f in hub.faults.values() if f == "late")
            if not 1 <= cnt <= 1 + lost:
                raise Violation(f"{m} executed {cnt} times through {who}", "set not executed once")
        tag.append("ok")
    return f"{p['beh']} {'cam' if cam else 'smart'} {','.join(tag)}"
