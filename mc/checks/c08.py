"""C08: batched SMART queries equal the individual queries."""

from __future__ import annotations

import copy
import itertools

from mc import core, fake
from mc.core import Violation

BOUNDS = {
    "quick": "every ordered method sequence up to 4 over 9 method kinds (and 5..7 over representative kinds) x batch sizes x 6 device behaviours; list lengths/page sizes; SMART and camera protocol",
    "thorough": "sequences up to 5 over all kinds, 8 over representative kinds, batch sizes 1..6",
}

# kind -> (method name template, params)
ERR = -1008


class Device:
    """Answers one method; the truth about what each method returns alone."""

    def __init__(self, cam, list_len=7, page=3):
        self.cam = cam
        self.list_len = list_len
        self.page = page
        self.executed = []

    def alone(self, method, params):
        """Answer of the device to this method alone: (error_code, result or None)."""
        k = method.rstrip("0123456789")
        if k in ("get_fail", "getFail"):
            return ERR, None
        if k in ("get_unsup", "getUnsup"):
            return -1002, None
        if k in ("get_weird", "getWeird"):
            return -123456, None
        if k in ("get_sess", "getSess"):
            return 9999, None
        if k in ("set_thing", "setThing"):
            return 0, None
        if k in ("get_list", "getList"):
            start = (params or {}).get("start_index", 0)
            if self.cam:
                start = next(iter(params.values()))["start_index"]
            items = [f"{method}-{i}" for i in range(self.list_len)][start:start + self.page]
            return 0, {"start_index": start, "sum": self.list_len, "items": items}
        if k in ("get_short", "getShort"):
            # advertises more entries than it ever returns
            start = (params or {}).get("start_index", 0) if not self.cam else next(iter(params.values()))["start_index"]
            return 0, {"items": [f"{method}-{i}" for i in range(2)][start:], "start_index": start, "sum": 9}
        return 0, {"of": method, "params": copy.deepcopy(params)}

    def full(self, method, params):
        """What the caller must get for this method."""
        err, res = self.alone(method, params)
        if err:
            return ("err", err if err != -123456 else -100000)
        if res is None:
            return ("ok", None)
        k = method.rstrip("0123456789")
        if k in ("get_list", "getList"):
            res = dict(res, items=[f"{method}-{i}" for i in range(self.list_len)])
        if k in ("get_short", "getShort"):
            res = dict(res, items=[f"{method}-{i}" for i in range(2)])
        return ("ok", res)


KINDS_SMART = {
    "plain": ("get_plain", None),
    "param": ("get_param", {"x": 1}),
    "fail": ("get_fail", None),
    "unsup": ("get_unsup", {"a": "b"}),
    "weird": ("get_weird", None),
    "sess": ("get_sess", None),
    "set": ("set_thing", {"v": 2}),
    "list": ("get_list", {"start_index": 0}),
    "short": ("get_short", {"start_index": 0}),
    "single1": ("getConnectStatus", None),
    "single2": ("scanApList", {"onboarding": {"scan": {}}}),
}
KINDS_CAM = {
    "plain": ("getPlain", {"plain": {"name": ["x"]}}),
    "param": ("getParam", {"system": {"name": "z"}}),
    "fail": ("getFail", {"fail": {}}),
    "unsup": ("getUnsup", {"u": {"k": 1}}),
    "weird": ("getWeird", {"w": {}}),
    "set": ("setThing", {"thing": {"v": 2}}),
    "list": ("getList", {"childControl": {"start_index": 0}}),
    "short": ("getShort", {"childControl": {"start_index": 0}}),
    "single1": ("getConnectStatus", {"onboarding": {"get_connect_status": {}}}),
    "single2": ("scanApList", {"onboarding": {"scan": {}}}),
}
SINGLES = {"getConnectStatus", "scanApList"}
BEHAVIOURS = ["normal", "stops", "nomethod", "reject_json", "reject_unknown", "reverse"]


def build(kinds, table):
    out = {}
    for i, k in enumerate(kinds):
        name, params = table[k]
        if name in SINGLES:
            if name in out:
                return None
            out[name] = copy.deepcopy(params)
        else:
            out[f"{name}{i}"] = copy.deepcopy(params)
    return out


def scenarios(tier):
    out = []
    th = tier == "thorough"
    for cam in (False, True):
        table = KINDS_CAM if cam else KINDS_SMART
        allk = list(table)
        core_k = ["plain", "fail", "list", "single1", "set"]
        for beh in BEHAVIOURS:
            if cam and beh in ("reject_unknown",):
                continue
            sizes = (1, 2, 3, 5) if not th else (1, 2, 3, 4, 5, 6)
            for bs in sizes:
                for n in (1, 2, 3):
                    out.append(dict(cam=cam, beh=beh, bs=bs, n=n, kinds=allk, ll=7, page=3, first=None))
                for f in allk:
                    ks = allk if th else ["plain", "fail", "list", "single1", "set", "param", "unsup"]
                    out.append(dict(cam=cam, beh=beh, bs=bs, n=4, kinds=ks, ll=4, page=2, first=f))
                    if th:
                        out.append(dict(cam=cam, beh=beh, bs=bs, n=5, kinds=allk, ll=4, page=2, first=f))
                for f in core_k:
                    if bs in (2, 5) or th:
                        out.append(dict(cam=cam, beh=beh, bs=bs, n=6 if not th else 7, kinds=["plain", "fail", "single1", "list"], ll=3, page=2, first=f))
            # page geometry
            for ll in range(0, 8):
                for page in (1, 2, 3, 7, 10):
                    out.append(dict(cam=cam, beh=beh, bs=2, n=2, kinds=["list", "plain"], ll=ll, page=page, first=None))
                    out.append(dict(cam=cam, beh=beh, bs=1, n=2, kinds=["list", "plain"], ll=ll, page=page, first=None))
    # batching many plain requests: exact multiples and remainders, default batch size too
    for bs in (None, 1, 2, 3, 4, 5, 6, 7):
        for n in range(2, 18):
            out.append(dict(cam=False, beh="normal", bs=bs, n=n, kinds=["plain"], ll=1, page=1, first=None))
            out.append(dict(cam=False, beh="stops", bs=bs, n=n, kinds=["plain"], ll=1, page=1, first="fail"))
    return out


def run(ctx, p):
    from kasa import KasaException
    from kasa.exceptions import AuthenticationError, DeviceError, SmartErrorCode, _RetryableError
    from kasa.protocols import SmartCamProtocol, SmartProtocol

    cam = p["cam"]
    table = KINDS_CAM if cam else KINDS_SMART
    kinds = []
    for i in range(p["n"]):
        if i == 0 and p["first"]:
            kinds.append(p["first"])
        else:
            kinds.append(ctx.pick(p["kinds"], "kind"))
    query = build(kinds, table)
    if query is None:
        return "skip"
    dev = Device(cam, p["ll"], p["page"])
    bs = p["bs"]
    beh = p["beh"]
    batches = []
    eff_bs = bs or 5
    rejected = [False]

    def answer_one(m, params):
        err, res = dev.alone(m, params)
        r = {"error_code": err}
        if res is not None:
            r["result"] = res
        return r

    async def handler(req, tr):
        m = req["method"]
        if m != "multipleRequest":
            params = req.get("params")
            if cam:
                # single camera requests still use method/params form when batching is off
                pass
            dev.executed.append((m, repr(params), "single"))
            return answer_one(m, params)
        reqs = req["params"]["requests"]
        batches.append([r["method"] for r in reqs])
        if not reqs:
            raise Violation("an empty batch was sent to the device", "empty batch")
        if len(reqs) > eff_bs:
            raise Violation(f"batch of {len(reqs)} exceeds the batch size {eff_bs}", "batch size")
        for r in reqs:
            if r["method"] in SINGLES:
                raise Violation(f"{r['method']} was sent inside a batch", "single in batch")
        if beh.startswith("reject"):
            rejected[0] = True
            return {"error_code": -1003 if beh == "reject_json" else -100000 - 7}
        resp = []
        for r in reqs:
            dev.executed.append((r["method"], repr(r.get("params")), "batch"))
            a = answer_one(r["method"], r.get("params"))
            if not (beh == "nomethod" and r["method"].lower().startswith(("get_param", "getparam"))):
                a = {"method": r["method"], **a}
            resp.append(a)
            if beh == "stops" and a["error_code"]:
                break
        if beh == "reverse":
            resp.reverse()
        return {"error_code": 0, "result": {"responses": resp}}

    result = {}

    async def main(loop):
        tr = fake.make_transport(handler=handler, batch_size=bs)
        cls = SmartCamProtocol if cam else SmartProtocol
        proto = cls(transport=tr)
        want = copy.deepcopy(query)
        try:
            res = await proto.query(copy.deepcopy(query), retry_count=1)
            result["ok"] = res
        except KasaException as ex:
            result["ex"] = ex
        # once more on the same protocol object: state left behind must not matter
        n_exec = len(dev.executed)
        try:
            res2 = await proto.query(copy.deepcopy(query), retry_count=0)
            result["ok2"] = res2
        except KasaException as ex:
            result["ex2"] = ex
        result["exec"] = dev.executed[:n_exec]
        del want

    core.run_loop(ctx, main)
    expect = {m: dev.full(m, prm) for m, prm in query.items()}
    single = len(query) == 1
    for key, exk in (("ok", "ex"), ("ok2", "ex2")):
        if single and next(iter(expect.values()))[0] == "err":
            code = next(iter(expect.values()))[1]
            ex = result.get(exk)
            if ex is None:
                raise Violation(f"single failing method returned {result.get(key)} instead of raising", "single error swallowed")
            if getattr(ex, "error_code", None) is None or int(ex.error_code) != code:
                raise Violation(f"single failing method raised {ex!r}, expected code {code}", "wrong error")
            kind = _RetryableError if code == 9999 else DeviceError
            if not isinstance(ex, kind) or isinstance(ex, AuthenticationError):
                raise Violation(f"error {code} raised as {type(ex).__name__}", "wrong error class")
            continue
        if exk in result:
            raise Violation(f"query {list(query)} raised {result[exk]!r}", f"multi query raised {type(result[exk]).__name__}")
        res = result[key]
        if set(res) != set(query):
            raise Violation(f"query {list(query)} (batch size {bs}, {beh}) returned entries {list(res)}", "entries differ")
        for m, (kind, val) in expect.items():
            got = res[m]
            if kind == "err":
                if not isinstance(got, SmartErrorCode) or int(got) != val:
                    raise Violation(f"{m}: expected error code {val}, got {got!r}", "entry not the error")
            elif got != val or isinstance(got, SmartErrorCode):
                raise Violation(f"{m}: device answers {val!r} but the entry is {got!r} (batch {bs}, {beh})", "entry differs")
    # every state-changing method reached the device exactly once per query
    for m in query:
        if m.lower().startswith("set"):
            cnt = sum(1 for e in result["exec"] if e[0] == m)
            if cnt != 1:
                raise Violation(f"{m} was executed {cnt} times", "set executed not once")
    for m, prm, how in result["exec"]:
        if m in query and m in SINGLES and how != "single":
            raise Violation("must-be-single method batched", "single in batch")
        if m not in query:
            raise Violation(f"device was asked for {m}, which was not requested", "extra request")
        want = query[m]
        if "list" not in m.lower() and "short" not in m.lower() and prm != repr(want if want else None):
            raise Violation(f"{m} was sent with params {prm}, expected {want!r}", "params")
    return f"{beh} bs={bs} " + ",".join(sorted(set(kinds)))
