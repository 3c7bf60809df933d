"""C11: the set of child devices follows the device."""

from __future__ import annotations

import asyncio
import base64

from mc import core, sim
from mc.checks import c10
from mc.checks.c10 import Model, Sched, check_data, queried_modules, read_all
from mc.core import Violation

BOUNDS = {
    "quick": "two SMART hubs, a camera hub with sensors and a camera, with up to 3 children, and two strips: histories of 3 updates (with and without children) with <=3 of {pair, unpair (through the library or elsewhere), re-pair, reorder, listing without id, without (or with late) components or of an unknown kind, changed child state, child offline, child method errors or losses, failing child listings}; a hub with 1..23 children",
    "thorough": "histories of 5 updates with <=4 changes or faults",
}
ASSUMPTIONS = "hub and children are simulated from the recorded fixtures"

HUBS = [("smart", "H100(EU)_1.0_1.5.10.json"), ("smart", "KH100(UK)_1.0_1.5.6.json"),
        ("smartcam", "H200(US)_1.0_1.3.6.json"), ("smartcam", "H200(EU)_1.0_1.3.6.json")]
STRIPS = [("smart", "P300(EU)_1.0_1.0.15.json"), ("smart", "KS240(US)_1.0_1.0.7.json")]


def scenarios(tier):
    th = tier == "thorough"
    out = []
    for i, (kind, n) in enumerate(HUBS):
        for start in ((0, 2) if not th else (0, 1, 2, 3)):
            out.append(dict(name="hub", kind=kind, fix=n, n=5 if th else 3, budget=4 if th else 3 if i in (0, 2) and start else 2, start=start))
    for kind, n in STRIPS:
        out.append(dict(name="hub", kind=kind, fix=n, n=5 if th else 4, budget=4 if th else 2, start=9))
    for kind, n in (("smart", HUBS[1][1]), ("smartcam", HUBS[2][1])):
        out.append(dict(name="many", kind=kind, fix=n, budget=0, upto=23))
    return out


class Hub:
    """The simulated hub with a pool of children that can be paired."""

    def __init__(self, kind, fix, start):
        cls = sim.CamSim if kind == "smartcam" else sim.SmartSim
        self.kind = kind
        self.s = s = cls.fixture(fix)
        self.cam = kind == "smartcam"
        self.is_hub = start != 9
        self.pool = {}
        if self.is_hub:
            for cid in list(s.children):
                taken, c = s.remove_child(cid)
                self.pool[cid] = (taken, c)
            if self.cam and fix != "H200(EU)_1.0_1.3.6.json":
                o = sim.CamSim.fixture("H200(EU)_1.0_1.3.6.json")
                for cid in list(o.children):
                    taken, c = o.remove_child(cid)
                    c.root = s
                    self.pool = {cid: (taken, c), **self.pool}
            if not self.cam and len(self.pool) < 3:
                o = sim.SmartSim.fixture("H100(AU)_1.0_1.5.23.json")
                for i, cid in enumerate(list(o.children)):
                    taken, c = o.remove_child(cid)
                    c.root = s
                    new = f"PAIRED_{i}"
                    for grp in taken:
                        for d in grp:
                            d["device_id"] = new
                    c.who = new
                    c.info["get_device_info"]["device_id"] = new
                    self.pool[new] = (taken, c)
            self.ids = list(self.pool)[:3]
            for cid in self.ids[:start]:
                self.pair(cid)
        else:
            self.ids = list(s.children)
        self.offline = set()
        self.list_fail = None
        s.do_add_child_device_list = self._do_add
        orig = s.execute

        def execute(m, prm):
            if m == "get_scan_child_device_list":
                return 0, {"child_device_list": self.detected(), "scan_status": "idle"}
            if m == "getScanChildDeviceList":
                return 0, {"child_device_list": self.detected(), "scan_wait_time": 55, "scan_status": "idle"}
            if m == "addScanChildDeviceList":
                return self._do_add(prm["childControl"])
            return orig(m, prm)

        s.execute = execute
        orig_one = s.one

        def one(req):
            cid = None
            if req["method"] == "control_child":
                cid = req["params"]["device_id"]
            elif req["method"] == "controlChild":
                cid = req["params"]["childControl"]["device_id"]
            if cid in self.offline:
                return {"error_code": -1012 if not self.cam else -40210}
            return orig_one(req)

        s.one = one
        self.hidden = {}  # listed, but the hub does not know their components (yet)
        self.entries = {"noid": False, "nocomp": False, "unknown": False}
        self.scan = []

    def detected(self):
        return [{"device_id": c, "category": self.pool[c][0][0][0]["category"], "device_model": "X", "name": "X"} for c in self.scan]

    def _do_add(self, prm):
        for d in prm["child_device_list"]:
            if d["device_id"] not in self.s.children:
                self.pair(d["device_id"])
        return 0, {}

    def paired(self):
        return list(self.s.children)

    def pair(self, cid):
        taken, c = self.pool[cid]
        self.s.add_child(taken, c)

    def unpair(self, cid):
        self.hidden.pop(cid, None)
        self.s.remove_child(cid)

    def hide(self, cid):
        b = self.lists()[1]
        if cid in self.hidden:
            b["child_component_list"] = b["child_component_list"] + self.hidden.pop(cid)
        else:
            self.hidden[cid] = [d for d in b["child_component_list"] if d["device_id"] == cid]
            b["child_component_list"] = [d for d in b["child_component_list"] if d["device_id"] != cid]

    def lists(self):
        return self.s.info[self.s.LIST], self.s.info[self.s.COMPS]

    def reorder(self):
        a, b = self.lists()
        a["child_device_list"] = a["child_device_list"][1:] + a["child_device_list"][:1]
        b["child_component_list"] = list(reversed(b["child_component_list"]))

    def toggle(self, what):
        a, b = self.lists()
        on = self.entries[what] = not self.entries[what]
        cid = "EXTRA_" + what
        if not on:
            a["child_device_list"] = [d for d in a["child_device_list"] if d.get("extra") != what]
            b["child_component_list"] = [d for d in b["child_component_list"] if d["device_id"] != cid]
            return
        entry = {"extra": what, "category": "subg.trigger.button", "device_model": "S200B", "nickname": ""}
        if what != "noid":
            entry["device_id"] = cid
        if what == "unknown":
            entry["category"] = "subg.unheard-of"
            b["child_component_list"] = b["child_component_list"] + [{"device_id": cid, "component_list": []}]
        a["child_device_list"] = [entry] + a["child_device_list"]

    def info_of(self, cid):
        return next(d for d in self.lists()[0]["child_device_list"] if d.get("device_id") == cid)

    def rename(self, cid, k):
        d = self.info_of(cid)
        if "nickname" in d:
            d["nickname"] = base64.b64encode(f"name {k}".encode()).decode()
        elif "alias" in d:
            d["alias"] = f"name {k}"
        d["rssi"] = -30 - k
        d["fresh"] = k

    def supported(self):
        """The children that have to be there according to the device."""
        return set(self.paired()) - set(self.hidden)


def alias_of(d):
    if "nickname" in d:
        return base64.b64decode(d["nickname"]).decode()
    return d.get("alias")


def ops(h, step):
    out = []
    for cid in h.ids:
        if cid in h.s.children:
            if h.is_hub:
                out.append(("unpair", cid))
                out.append(("repair", cid))
                out.append(("hide", cid))
            out.append(("state", cid))
        else:
            out.append(("pair", cid))
    if h.is_hub:
        missing = [c for c in h.ids if c not in h.s.children]
        if missing:
            out.append(("lib pair", missing))
        for cid in h.ids:
            if cid in h.s.children:
                out.append(("lib unpair", cid))
    if len(h.s.children) > 1:
        out.append(("reorder",))
    if h.is_hub:
        for what in h.entries:
            # children of unknown kinds are kept for SMART hubs
            if what != "unknown" or h.cam:
                out.append(("toggle", what))
    return out


def faults(h, dev):
    out = [("list", "code"), ("comps", "code"), ("lists", "lost")]
    if not h.is_hub:
        out = [("list", "code"), ("lists", "lost")]
    for c in h.paired():
        out += [("offline", c), ("lost", c), ("code", c)]
    return out


def apply_fault(h, M, f):
    M.clear()
    h.offline = set()
    M.child_lost = M.child_code = None
    if f[0] == "list":
        M.codes["parent", h.s.LIST] = -1008
    elif f[0] == "comps":
        M.codes["parent", h.s.COMPS] = -1008
    elif f[0] == "lists":
        M.lost |= {("parent", h.s.LIST), ("parent", h.s.COMPS)}
    elif f[0] == "offline":
        h.offline.add(f[1])
    elif f[0] == "lost":
        M.child_lost = f[1]
    elif f[0] == "code":
        M.child_code = f[1]


class Model11(Model):
    child_lost = child_code = None

    def __init__(self, h):
        super().__init__(h.s)
        self.h = h

    def fault(self, who, m, prm):
        if who == self.child_code:
            self.last[who, m] = None
            return -1008
        return super().fault(who, m, prm)

    def on_send(self, req):
        ms = sim.flatten(req)
        if self.child_lost and any(w == self.child_lost for w, _ in ms):
            self.lost |= {x for x in ms if x[0] == self.child_lost}
        for x in ms:
            if x[0] in self.h.offline or (x[0] != "parent" and x[0] not in self.h.s.children):
                self.last[x] = None
        return super().on_send(req)


def check_children(h, M, dev, where, expect, objs):
    got = {c.device_id: c for c in dev.children}
    if len(got) != len(dev.children):
        raise Violation(f"{where}: two children with one identity", "duplicate child")
    if set(got) != expect:
        raise Violation(f"{where}: children are {sorted(got)} but the device has {sorted(expect)}", "child set")
    for cid, c in got.items():
        if cid in objs and objs[cid] is not c:
            raise Violation(f"{where}: the object of the unchanged child {cid} was replaced", "child replaced")
        if c.parent is not dev:
            raise Violation(f"{where}: wrong parent of {cid}", "child parent")


def check_info(h, dev, where, known):
    for c in dev.children:
        d = known[c.device_id]
        mapped = c.sys_info
        for k, v in d.items():
            k2 = k
            if h.cam and type(c).__name__ == "SmartCamChild":
                k2 = {"device_model": "model", "sw_ver": "fw_ver", "hw_id": "hwId"}.get(k, k)
            if mapped.get(k2) != v:
                raise Violation(f"{where}: {c.device_id} reports {k}={mapped.get(k2)!r}, the device said {v!r}", "child state")
        if c.alias != alias_of(d):
            raise Violation(f"{where}: alias {c.alias!r} instead of {alias_of(d)!r}", "child alias")


def snap(h):
    return {d["device_id"]: dict(d) for d in h.lists()[0]["child_device_list"] if d.get("device_id")}


_fresh = {}


async def fresh_child_shapes(p):
    """Modules and features of every child on a hub that never changed."""
    key = p["kind"], p["fix"], p["start"]
    if key not in _fresh:
        h = Hub(p["kind"], p["fix"], 9 if p["start"] == 9 else len(HUBS))
        dev = sim.smart_device(h.s)
        await dev.update()
        await dev.update()
        _fresh[key] = {c.device_id: (sorted(map(str, c.modules)), sorted(c.features), c.device_type, c.model) for c in dev.children}
    return _fresh[key]


def run(ctx, p):
    from kasa import KasaException, Module

    async def hub():
        want = await fresh_child_shapes(p)
        h = Hub(p["kind"], p["fix"], p["start"])
        M = Model11(h)
        dev = sim.smart_device(h.s)
        S = Sched()
        objs, known = {}, None
        failed_before = False

        def forget(present):
            for key in [k for k in M.last if k[0] != "parent" and k[0] not in present]:
                del M.last[key]
            for key in [k for k in S.st if k[0] != "parent" and k[0] not in present]:
                del S.st[key]

        await c10.one_update(M, S, dev, "update 1", True)
        check_children(h, M, dev, "update 1", h.supported(), {})
        known = snap(h)
        objs = {c.device_id: c for c in dev.children}
        for i in range(p["n"] - 1):
            where = f"update {i + 2}"
            await asyncio.sleep(5)
            op = ("none",)
            all_ops = ops(h, i)
            k = ctx.choose(len(all_ops) + 1, f"change before update {i + 2}")
            if k:
                op = all_ops[k - 1]
            ctx.note("change", op)
            lib = None
            if op[0] == "unpair":
                h.unpair(op[1])
            elif op[0] == "pair":
                h.pair(op[1])
            elif op[0] == "repair":
                h.unpair(op[1])
                h.pair(op[1])
            elif op[0] == "state":
                h.rename(op[1], i + 1)
            elif op[0] == "reorder":
                h.reorder()
            elif op[0] == "hide":
                h.hide(op[1])
            elif op[0] == "toggle":
                h.toggle(op[1])
            elif op[0] in ("lib pair", "lib unpair"):
                lib = op
            fs = faults(h, dev)
            k = ctx.choose(len(fs) + 1, f"fault of update {i + 2}")
            f = fs[k - 1] if k else ("none",)
            ctx.note("fault", f)
            apply_fault(h, M, f)
            kids = True
            if lib is None and h.is_hub:
                kids = ctx.choose(2, "update children or not") == 0
            if lib:
                # the library pairs or unpairs and refreshes by itself
                setup = dev.modules[Module.ChildSetup]
                await asyncio.sleep(400)  # listings that failed are due again
                h.scan = lib[1] if lib[0] == "lib pair" else []
                M.attempted = set()
                try:
                    if lib[0] == "lib pair":
                        r = await setup.pair(timeout=10)
                        if f[0] == "none" and sorted(x["device_id"] for x in r) != sorted(lib[1]):
                            raise Violation(f"{where}: pair() returned {r} for {lib[1]}", "pair result")
                        if any(x["device_id"] not in {c.device_id for c in dev.children} for x in r):
                            raise Violation(f"{where}: pair() returned {r}, children are {dev.children}", "pair result")
                    else:
                        await setup.unpair(lib[1])
                except KasaException as ex:
                    ctx.note("lib", type(ex).__name__)
                    if f[0] == "none":
                        raise Violation(f"{where}: {lib} failed with {ex!r}", "pairing failed")
                if f[0] == "none":
                    check_children(h, M, dev, f"{where} after {lib}", h.supported(), {x: o for x, o in objs.items() if x in h.supported()})
                present = {c.device_id for c in dev.children}
                objs = {c.device_id: c for c in dev.children}
                forget(present)
                # bring the account of the schedule up to date
                S = Sched()
                apply_fault(h, M, f)
                await asyncio.sleep(86401)
            ok = await one(M, S, dev, where, kids, h, objs)
            if not ok:
                raise Violation(f"{where}: update failed", "update failed")
            # after a failure the lists are asked for again 30 s later (see C10)
            L, C = ("parent", h.s.LIST), ("parent", h.s.COMPS)
            listed = L in M.attempted and M.last.get(L) is not None
            comps_ok = not h.is_hub or (C in M.attempted and M.last.get(C) is not None)
            if f[0] == "none" and not failed_before and not listed:
                raise Violation(f"{where}: the children were not listed", "not listed")
            failed_before = not (listed and comps_ok) if L in M.attempted else failed_before
            if listed and comps_ok:
                expect = h.supported()
            else:
                expect = set(objs)
            stay = {x: o for x, o in objs.items() if x in expect}
            check_children(h, M, dev, where, expect, stay)
            if listed:
                cur = snap(h)
                known = {x: cur.get(x, (known or {}).get(x)) for x in expect}
            check_info(h, dev, where, known)
            objs = {c.device_id: c for c in dev.children}
            forget(set(objs))
            if f[0] == "none" and kids:
                ch = [c for c in dev.children]
                for c in ch:
                    for name, m in c.modules.items():
                        q = m.query()
                        if q and not all((c.device_id, x) in M.last for x in q):
                            raise Violation(f"{where}: {c.device_id}/{name} has never been queried", f"never queried {name}")
        apply_fault(h, M, ("none",))
        for cid in list(h.hidden):
            h.hide(cid)
        for i in range(2):
            await asyncio.sleep(86401)
            if not await one(M, S, dev, f"healthy update {i + 1}", True, h, objs):
                raise Violation("healthy update failed", "healthy update")
            forget({c.device_id for c in dev.children})
        check_children(h, M, dev, "healthy update", h.supported(), {x: o for x, o in objs.items() if x in h.supported()})
        check_info(h, dev, "healthy update", snap(h))
        for c in dev.children:
            got = (sorted(map(str, c.modules)), sorted(c.features), c.device_type, c.model)
            if got != want[c.device_id]:
                raise Violation(f"child {c.device_id} is {got}, on a fresh hub it is {want[c.device_id]}", "child shape")
        read_all(dev, "healthy update")
        return f"{len(dev.children)} children"

    async def one(M, S, dev, where, kids, h, objs):
        if kids:
            return await c10.one_update(M, S, dev, where, False)
        M.attempted = set()
        before = set(objs)
        await dev.update(update_children=False)
        asked = {w for w, _ in M.attempted if w != "parent"}
        now = {c.device_id for c in dev.children}
        if before == now and not (h.cam and asked - before):
            if asked & now:
                raise Violation(f"{where}: children {asked} were queried without being asked for", "children queried")
        check_data(M, dev, where)
        for key, (d, m, methods) in queried_modules(dev).items():
            if any((key[0], x) in M.attempted for x in methods):
                # parent modules and, when children changed, the children
                ok, _ = c10.outcome(M, key[0], m, methods)
                st = S.st.setdefault(key, [0, 0, 0])
                st[0] = st[1] = core._vmono()
                st[2] = 0 if ok or type(m).__name__ == "DeviceModule" else st[2] + 1
        return True

    async def many():
        """Listings longer than one page."""
        n = ctx.pick(range(1, p["upto"] + 1), "children")
        h = Hub(p["kind"], p["fix"], 1)
        first = h.ids[0]
        taken, c0 = h.pool[first]
        import copy
        for i in range(n - 1):
            t = copy.deepcopy(taken)
            cid = f"CHILD_{i:02}"
            for grp in t:
                for d in grp:
                    d["device_id"] = cid
            cs = c0
            if not h.cam:
                cs = sim.SmartSim({**copy.deepcopy(c0.info), "get_device_info": t[0][0]}, who=cid, root=h.s)
            else:
                cs = type(c0)({**copy.deepcopy(c0.info)}, who=cid, root=h.s)
                if "child_info_from_parent" in cs.info:
                    cs.info["child_info_from_parent"] = t[0][0]
            cs.comps = c0.comps
            h.pool[cid] = (t, cs)
            h.pair(cid)
        dev = sim.smart_device(h.s)
        await dev.update()
        for i in range(2):
            check_children(h, None, dev, f"update {i + 1}", h.supported(), {})
            check_info(h, dev, f"update {i + 1}", snap(h))
            await asyncio.sleep(5)
            if i == 0:
                h.unpair(h.paired()[n // 2])
                for k, cid in enumerate(h.paired()):
                    h.rename(cid, k)
                await dev.update()
        return f"{n} children"

    async def main(loop):
        return await {"hub": hub, "many": many}[p["name"]]()

    return core.run_loop(ctx, main)
