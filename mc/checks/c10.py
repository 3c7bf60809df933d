"""C10: device updates isolate module failures and recover."""

from __future__ import annotations

import asyncio
import copy

from mc import core, sim
from mc.core import Violation

BOUNDS = {
    "quick": "every shape of recorded SMART and camera device with its children: histories of 3 updates with <=1 faulty update (each polled method answering an error, timing out, or not answering at all; batches timing out; device unreachable) x elapsed times {1, 86401 s}; 4 devices with <=2 faulty updates and elapsed times {1, 61, 86401 s}; per method failure runs of 1..11 with polls one second before and at the retry time; first updates of every recorded device failing or cancelled at every exchange, or failing at every method",
    "thorough": "histories of 4 updates with <=2 faults on every device, 5 updates with <=3 faults on the device classes",
}
ASSUMPTIONS = "devices are simulated from the recorded fixtures; module poll intervals are the table INTERVALS of the check"

# seconds between polls of a module that works
INTERVALS = {"Cloud": 60, "Firmware": 86400, "LightTransition": 60, "LightPreset": 60, "SmartLightEffect": 86400,
             "LightEffect": 86400, "Led": 3600, "TriggerLogs": 3600, "ChildSetup": 86400}
CAM_INTERVALS = {"ChildSetup": 86400}
OPTIONAL = {"Energy": {"get_energy_usage"}}
CRITICAL = {"get_device_info", "getDeviceInfo"}
INITIAL = {"component_nego", "get_device_info", "get_connect_cloud_state", "getDeviceInfo", "getAppComponentList",
           "getConnectionType", "get_child_device_list", "get_child_device_component_list", "getChildDeviceList",
           "getChildDeviceComponentList"}
DEEP = [("smart", n) for n in ("P110(EU)_1.0_1.2.3.json", "L530E(EU)_3.0_1.1.6.json", "KS240(US)_1.0_1.0.7.json",
                               "H100(EU)_1.0_1.5.10.json", "P300(EU)_1.0_1.0.15.json", "L920-5(US)_1.0_1.1.3.json")] \
    + [("smartcam", "C220(EU)_1.0_1.2.2.json"), ("smartcam", "H200(EU)_1.0_1.3.6.json")]


def _all():
    return [("smart", n) for n in sim.names("smart")] + [("smartcam", n) for n in sim.names("smartcam")]


def _classes():
    """One device of each shape (components of the device and of its children)."""
    seen, out = set(), []
    for kind, n in _all():
        d = sim.load(kind, n)
        ids = lambda x: sorted((c.get("id") or c.get("name"), c.get("ver_code") or c.get("version"))  # noqa: E731
                               for c in x.get("component_list", x.get("app_component_list", [])))
        comp = d.get("component_nego") or d.get("getAppComponentList", {}).get("app_component", {})
        kids = d.get("get_child_device_component_list") or d.get("getChildDeviceComponentList") or {}
        kids = kids.get("child_component_list", []) if isinstance(kids, dict) else []
        key = repr((ids(comp), sorted(map(repr, map(ids, kids)))))
        if key not in seen:
            seen.add(key)
            out.append((kind, n))
    return out


def scenarios(tier):
    th = tier == "thorough"
    out = []
    cls = _classes()
    for kind, n in _all():
        if th or (kind, n) in cls:
            out.append(dict(name="hist", kind=kind, fix=n, n=4 if th else 3, budget=2 if th else 1,
                            dt=[1, 61, 86401] if th else [1, 86401]))
            out.append(dict(name="run", kind=kind, fix=n, budget=0))
        out.append(dict(name="first", kind=kind, fix=n, budget=2 if th else 1))
    for kind, n in DEEP[:None if th else 4]:
        out.append(dict(name="hist", kind=kind, fix=n, n=5 if th else 3, budget=3 if th else 2,
                        dt=[1, 30, 61, 3601, 86401] if th else [1, 61, 86401]))
    return out


class Model:
    """What was asked and answered, and when each module is due."""

    def __init__(self, s):
        self.s = s
        self.v = 0
        self.last = {}  # (who, method) -> result or None (failed)
        self.attempted = set()
        self.codes = {}  # (who, method) -> error code
        self.lost = set()  # methods whose requests are lost
        self.batch_lost = False
        self.all_lost = False
        self.nth = None  # lose the n-th exchange (and its retries)
        self.nth_methods = None
        self.cancel = False  # cancel the n-th exchange instead
        self.sent = 0
        self.mods = {}  # (who, name) -> dict
        s.tag = self.tag
        s.fault = self.fault
        s.on_send = self.on_send

    def tag(self, who, m, res):
        if not isinstance(res, dict):
            return
        self.v += 1
        res["_v"] = self.v
        for x in list(res.values()):
            if isinstance(x, dict):
                x["_v"] = self.v
        self.last[who, m] = copy.deepcopy(res)

    def fault(self, who, m, prm):
        code = self.codes.get((who, m))
        if code:
            self.last[who, m] = None
        return code

    def on_send(self, req):
        from kasa.exceptions import TimeoutError as KTimeout

        ms = sim.flatten(req)
        self.attempted |= set(ms)
        lose = self.all_lost or (self.batch_lost and len(ms) > 1) or any(x in self.lost for x in ms)
        if self.cancel:
            self.sent += 1
            if self.sent - 1 == self.nth:
                raise asyncio.CancelledError
        elif self.nth is not None:
            if self.nth_methods is None:
                if self.sent == self.nth:
                    self.nth_methods = tuple(ms)
                self.sent += 1
            if self.nth_methods == tuple(ms):
                lose = True
        if lose:
            for x in ms:
                self.last[x] = None
            raise KTimeout("no answer")
        return None

    def clear(self):
        self.codes = {}
        self.lost = set()
        self.batch_lost = self.all_lost = False
        self.nth = self.nth_methods = None
        self.cancel = False
        self.sent = 0
        self.attempted = set()


def devices(dev):
    return [("parent", dev)] + [(c.device_id, c) for c in dev.children]


def interval(who, d, mod):
    if who != "parent" and d.parent is not None and d.parent.device_type.name == "Hub":
        return 86400
    cam = type(mod).__module__.startswith("kasa.smartcam")
    return (CAM_INTERVALS if cam else INTERVALS).get(type(mod).__name__, 0)


def queried_modules(dev):
    out = {}
    for who, d in devices(dev):
        for name, m in d.modules.items():
            q = m.query()
            if q:
                out[who, str(name)] = (d, m, list(q))
    return out


def optional(m):
    name = type(m).__name__
    if name == "Energy" and m.supported_version > 1:
        return OPTIONAL["Energy"]
    return set()


def outcome(M, who, m, methods):
    """(ok, expected data) of a module from the latest answers to its methods."""
    opt = optional(m)
    got, removed = {}, False
    for x in methods:
        if (who, x) not in M.last:
            continue
        r = M.last[who, x]
        if r is None:
            if x in opt:
                removed = True
                continue
            return False, None
        got[x] = r
    if len(got) == 1 and not removed:
        return True, next(iter(got.values()))
    return True, got


def check_data(M, dev, where):
    from kasa import KasaException

    for (who, name), (d, m, methods) in queried_modules(dev).items():
        if not any((who, x) in M.last for x in methods):
            if d.parent is None:
                raise Violation(f"{where}: {who}/{name} was never queried", f"never queried {name}")
            continue
        ok, want = outcome(M, who, m, methods)
        try:
            data = m.data
        except KasaException as ex:
            if ok:
                raise Violation(f"{where}: {who}/{name} raises {ex!r} although its latest query succeeded", f"lost data {name}")
            continue
        except Exception as ex:  # noqa: BLE001
            raise Violation(f"{where}: {who}/{name}.data fails with {ex!r}", f"bare {name}")
        if not ok:
            raise Violation(f"{where}: {who}/{name} presents data although its latest query failed", f"stale {name}")
        single = isinstance(want, dict) and data in [v for v in want.values() if isinstance(v, dict)]
        if data != want and not single:
            raise Violation(f"{where}: {who}/{name} does not present the answer to its latest query", f"wrong data {name}")


class Sched:
    """Independent account of when modules have to be polled."""

    def __init__(self):
        self.st = {}  # key -> [last_lo, last_hi, errs]

    def due(self, key, d, m, lo, hi):
        """'must', 'mustnot' or 'may' for an update between lo and hi."""
        st = self.st.get(key)
        if st is None:
            return "may"
        if st[2] >= 10:
            return "mustnot"
        iv = 30 * st[2] if st[2] else interval(key[0], d, m)
        if not iv or lo - st[1] >= iv:
            return "must"
        if hi - st[0] < iv:
            return "mustnot"
        return "may"


async def one_update(M, S, dev, where, first):
    """Run one update and compare with the account; returns False when it raised."""
    from kasa import KasaException

    before = queried_modules(dev) if not first else {}
    M.attempted = set()
    lo = core._vmono()
    err = None
    try:
        await dev.update()
    except KasaException as ex:
        err = ex
    except Exception as ex:  # noqa: BLE001
        raise Violation(f"{where}: update raised {ex!r}, which is not a library exception", f"bare {type(ex).__name__} from update")
    hi = core._vmono()
    att = M.attempted
    crit = [("parent", c) for c in CRITICAL if ("parent", c) in att]
    crit_failed = any(M.last.get(c) is None for c in crit)
    if err is not None:
        if not first and not crit_failed:
            raise Violation(f"{where}: update failed with {err!r} although the device information was answered", "update failed")
        return False
    if not first and crit_failed:
        raise Violation(f"{where}: update succeeded although the device information was not answered", "critical ignored")
    now = queried_modules(dev)
    if not first:
        need, allow = set(), set(("parent", x) for x in INITIAL if x not in CRITICAL and False)
        for key, (d, m, methods) in before.items():
            if key not in now:
                continue
            w = S.due(key, d, m, lo, hi)
            if w == "must":
                need |= {(key[0], x) for x in methods}
            if w != "mustnot":
                allow |= {(key[0], x) for x in methods}
        new = {x[0] for x in now if x not in before}
        miss = need - att
        if miss:
            raise Violation(f"{where}: due modules were not queried: {sorted(miss)}", f"not polled {sorted(miss)[0][1]}")
        extra = {x for x in att if x not in allow and x[0] not in new}
        if extra:
            raise Violation(f"{where}: modules were queried before they were due: {sorted(extra)}", f"polled too often {sorted(extra)[0][1]}")
    for key, (d, m, methods) in now.items():
        who = key[0]
        st = S.st.setdefault(key, [lo, hi, 0])
        ok, _ = outcome(M, who, m, methods)
        polled = all((who, x) in att for x in methods) or (first and any((who, x) in att for x in methods))
        if type(m).__name__ == "DeviceModule":
            ok = True
        if type(m).__name__ == "CleanRecords" and M.last.get((who, "get_device_time"), 0) is None:
            ok = False  # the records are converted with the device's time zone
        # the child list is polled at the start of the first update
        if polled:
            st[0], st[1] = lo, hi
            st[2] = 0 if ok else st[2] + 1
        elif ok and st[2] < 10:
            st[2] = 0
        if m.disabled != (st[2] >= 10):
            raise Violation(f"{where}: {key} disabled={m.disabled} after {st[2]} consecutive failures", f"disabled {key[1]}")
    check_data(M, dev, where)
    return True


def fault_options(dev, deep):
    opts = [("none",)]
    qs = queried_modules(dev)
    ms = []
    for (who, _), (_, _, methods) in qs.items():
        for x in methods:
            if (who, x) not in ms:
                ms.append((who, x))
    for x in ms:
        opts.append(("code", x))
    for x in ms:
        opts.append(("lost", x))
    opts.append(("batch",))
    opts.append(("all",))
    return opts


def apply(M, f):
    M.clear()
    if f[0] == "code":
        M.codes[f[1]] = -1008
    elif f[0] == "lost":
        M.lost.add(f[1])
    elif f[0] == "batch":
        M.batch_lost = True
    elif f[0] == "all":
        M.all_lost = True


def build(p):
    cls = sim.CamSim if p["kind"] == "smartcam" else sim.SmartSim
    s = cls.fixture(p["fix"])
    M = Model(s)
    return s, M, sim.smart_device(s)


def shape(dev):
    return {who: (sorted(map(str, d.modules)), sorted(d.features)) for who, d in devices(dev)}


_fresh = {}


async def fresh_shape(p):
    key = p["kind"], p["fix"]
    if key not in _fresh:
        s, M, dev = build(p)
        await dev.update()
        await dev.update()
        _fresh[key] = shape(dev)
    return _fresh[key]


def read_all(dev, where):
    for who, d in devices(dev):
        for f in d.features.values():
            try:
                f.value
            except Exception as ex:  # noqa: BLE001
                raise Violation(f"{where}: feature {who}/{f.id} cannot be read: {ex!r}", f"feature {f.id}")


def run(ctx, p):
    async def hist():
        s, M, dev = build(p)
        S = Sched()
        want = await fresh_shape(p)
        S2_first = True
        for i in range(p["n"]):
            where = f"update {i + 1}"
            if i == 0:
                f = ("none",)
            else:
                dt = ctx.pick(p["dt"], f"elapsed before update {i + 1}")
                await asyncio.sleep(dt)
                opts = fault_options(dev, p.get("deep"))
                k = ctx.choose(len(opts), f"fault of update {i + 1}")
                f = opts[k]
            apply(M, f)
            ctx.note("update", i, f)
            ok = await one_update(M, S, dev, where, first=i == 0)
            ctx.note("->", ok, M.v)
            if f[0] == "all" and ok:
                raise Violation(f"{where}: succeeded although nothing was answered", "unreachable ignored")
            if f[0] != "all" and not ok and not (f[0] in ("code", "lost") and f[1][1] in CRITICAL):
                raise Violation(f"{where}: failed", "update failed")
        # a healthy update much later: everything is back
        M.clear()
        await asyncio.sleep(86401)
        if not await one_update(M, S, dev, "healthy update", first=False):
            raise Violation("healthy update failed", "healthy update")
        if shape(dev) != want:
            raise Violation("modules or features were lost in the course of the history", "shape")
        read_all(dev, "healthy update")
        return "ok"

    async def first():
        from kasa import KasaException
        s, M, dev = build(p)
        want = await fresh_shape(p)
        # count the exchanges and methods of a first update
        s0, M0, dev0 = build(p)
        await dev0.update()
        nex, meths = s0.sends, sorted(M0.attempted)
        opts = [("none",), ("all",), ("batch",)] + [("nth", i) for i in range(nex)] \
            + [("cancel", i) for i in range(nex)] + [("code", x) for x in meths] \
            + [("lost", x) for x in meths]
        for i in range(p["budget"]):
            f = opts[ctx.choose(len(opts), f"fault of attempt {i + 1}")]
            apply(M, f)
            if f[0] in ("nth", "cancel"):
                M.nth = f[1]
                M.cancel = f[0] == "cancel"
            ctx.note("attempt", i, f)
            try:
                await dev.update()
                r = "ok"
                check_data(M, dev, f"first update with {f}")
            except KasaException as ex:
                r = type(ex).__name__
            except asyncio.CancelledError:
                r = "cancelled"
            except Violation:
                raise
            except Exception as ex:  # noqa: BLE001
                raise Violation(f"first update with {f} raised {ex!r}, which is not a library exception", f"bare {type(ex).__name__} from first update")
            ctx.note("->", r)
            M.clear()
            await asyncio.sleep(1)
        for i in range(2):
            await asyncio.sleep(86401 if i else 31)
            M.clear()
            try:
                await dev.update()
            except Exception as ex:  # noqa: BLE001
                raise Violation(f"healthy update {i + 1} after failed first update raised {ex!r}", "first update not repeatable")
        check_data(M, dev, "healthy update after failed first update")
        got = shape(dev)
        if got != want:
            diff = []
            for w in want:
                if w not in got:
                    diff.append(f"device {'parent' if w == 'parent' else 'child'}")
                    continue
                for a, b in zip(want[w], got[w]):
                    diff += [("-" if x in a else "+") + x for x in set(a) ^ set(b)]
            diff = ",".join(sorted(set(diff)))
            raise Violation(f"after a failed first update the device stays incomplete: {diff}", f"incomplete after first update: {diff}")
        read_all(dev, "healthy update after failed first update")
        return r if p["budget"] else "ok"

    async def runs():
        """Failure runs of one method: polls exactly when due."""
        s, M, dev = build(p)
        S = Sched()
        await one_update(M, S, dev, "first", True)
        await asyncio.sleep(86401)
        await one_update(M, S, dev, "second", False)
        cand = [x for x in fault_options(dev, False) if x[0] == "code" and x[1][1] not in CRITICAL]
        if not cand:
            return "nothing polled"
        f = ctx.pick(cand, "failing method")
        k = ctx.pick(range(1, 12), "failures")
        early = ctx.pick([True, False], "also poll one second early")
        await asyncio.sleep(86401)
        for i in range(k):
            apply(M, f)
            await one_update(M, S, dev, f"failure {i + 1}", False)
            if early:
                await asyncio.sleep(30 * (i + 1) - 1)
                await one_update(M, S, dev, f"early update after failure {i + 1}", False)
                await asyncio.sleep(1)
            else:
                await asyncio.sleep(30 * (i + 1))
        M.clear()
        for i in range(2):
            if not await one_update(M, S, dev, f"recovery {i + 1}", False):
                raise Violation("healthy update failed", "healthy update")
            await asyncio.sleep(86401)
        if k in (1, 9):
            # only consecutive failures count
            for i in range(9):
                apply(M, f)
                await one_update(M, S, dev, f"failure {i + 1} after a recovery", False)
                await asyncio.sleep(30 * (i + 1))
            M.clear()
            if not await one_update(M, S, dev, "second recovery", False):
                raise Violation("healthy update failed", "healthy update")
        # disabled exactly from ten on
        for key, (d, m, methods) in queried_modules(dev).items():
            if key[0] == f[1][0] and f[1][1] in methods and f[1][1] not in optional(m) and type(m).__name__ != "DeviceModule":
                if m.disabled != (k >= 10):
                    raise Violation(f"{key} disabled={m.disabled} after {k} failures", "disable count")
        return f"{k} failures"

    async def main(loop):
        return await {"hist": hist, "first": first, "run": runs}[p["name"]]()

    return core.run_loop(ctx, main)
