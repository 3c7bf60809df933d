"""C21: energy and usage figures are unit-correct for every firmware format."""

from __future__ import annotations

import asyncio
import datetime as _real
import itertools
import os
import time as _time
import warnings

from mc import core
from mc.core import Violation

DT, TD, UTC = _real.datetime, _real.timedelta, _real.timezone.utc
core.install_datetime()

from mc import iotsim, sim  # noqa: E402

BOUNDS = {
    "quick": "legacy: both unit systems x every subset of the four readings present x readings over {0, 1, typical, large} in every combination of two values, on a plug, a bulb, a strip; statistics over every combination of {absent, 0, small, large} for today, yesterday, this and last month, on dates at every month end and start, leap day and year ends of 2023-2025, host in three zones, repeated day entries; every year and month of history; usage likewise; SMART: v1/v2 formats x fields present or absent x values, on plugs and strip sockets",
    "thorough": "all combinations of the readings' values and every day of 2023-2025",
}
ASSUMPTIONS = "today is the host's current day (legacy devices are asked for the host's current month); all entries of one statistics reply use the same unit; the total in the status of a first-generation SMART meter is not judged"

VALUES = {"power_mw": (0, 1, 1234, 3_680_000), "voltage_mv": (0, 1, 121_215, 240_000), "current_ma": (0, 1, 33, 16_000), "total_wh": (0, 1, 5007, 9_999_999)}
KEYS = {"power": "power_mw", "voltage": "voltage_mv", "current": "current_ma", "total": "total_wh"}


def near(a, b):
    if a is None or b is None:
        return a is b
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def same(got, want, where, sig):
    ok = near(got, want) if not isinstance(want, dict) else set(got) == set(want) and all(near(got[k], want[k]) for k in want)
    if not ok:
        raise Violation(f"{where}: {got}, expected {want}", sig)


class Env:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = os.environ.get("TZ")
        os.environ["TZ"] = self.name
        _time.tzset()

    def __exit__(self, *a):
        if self.old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = self.old
        _time.tzset()


# ---------------------------------------------------------------- legacy
IOT = {"plug": "HS110(EU)_4.0_1.0.4.json", "bulb": "KL130(EU)_1.0_1.8.8.json", "strip": "HS300(US)_1.0_1.0.10.json"}


class Legacy:
    def __init__(self, p):
        self.sim = iotsim.IotSim(iotsim.load("iot", IOT[p["device"]]), today=(2024, 6, 15))
        self.sim.new_units = p["units"] == "new"
        self.dev = iotsim.iot_device(self.sim)
        self.ids = self.sim.socket_ids or [None]

    def holder(self, w):
        return self.dev if w is None else next(c for c in self.dev.children if c.child_id == w)

    async def update(self):
        await asyncio.sleep(1)
        await self.dev.update()

    def energy(self, d):
        from kasa.module import Module
        return d.modules[Module.Energy]

    def readings(self, where):
        """Instant values of all holders, and the strip's sums."""
        keys = self.sim.meter_keys or ({"power"} if self.sim.is_bulb else set(KEYS))
        per = {}
        for w in self.ids:
            m = self.sim.meter[w]
            want = {k: m[KEYS[k]] / 1000 if k in keys else None for k in KEYS}
            per[w] = want
            self.one(self.holder(w), want, f"{where}, {w}")
        if self.ids != [None]:
            n = len(self.ids)
            want = {k: sum(p[k] or 0 for p in per.values()) for k in KEYS}
            want["voltage"] /= n
            if keys == set(KEYS):
                self.one(self.dev, want, f"{where}, strip", volt_tol=0.001)
            else:  # only what every firmware of a strip reports
                e = self.energy(self.dev)
                same(e.current_consumption, want["power"], f"{where}: strip power", "strip sum")
                same(e.consumption_total, want["total"], f"{where}: strip total", "strip sum")

    def one(self, d, want, where, volt_tol=0.0):
        e = self.energy(d)
        st = e.status
        got = dict(power=e.current_consumption, voltage=e.voltage, current=e.current, total=e.consumption_total)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            dep = d.emeter_realtime
        for src, vals in (("module", got), ("status", {k: getattr(st, k) for k in KEYS}), ("deprecated", {k: getattr(dep, k) for k in KEYS})):
            for k, w in want.items():
                if k == "voltage" and volt_tol and vals[k] is not None and abs(vals[k] - w) <= volt_tol:
                    continue
                same(vals[k], w, f"{where}: {k} ({src})", f"{k} unit")
        for k, mk in KEYS.items():  # the other spelling of the same value
            if want[k] is not None and not (k == "voltage" and volt_tol):
                same(st[mk], want[k] * 1000, f"{where}: {mk}", f"{k} unit")
                same(st[k], want[k], f"{where}: {k}", f"{k} unit")
        f = d.features
        for fid, k in (("current_consumption", "power"), ("voltage", "voltage"), ("current", "current"), ("consumption_total", "total")):
            if fid in f:
                v = f[fid].value
                if not (k == "voltage" and volt_tol and abs(v - want[k]) <= volt_tol):
                    same(v, want[k], f"{where}: feature {fid}", f"{k} unit")
                if f[fid].unit != dict(power="W", voltage="V", current="A", total="kWh")[k]:
                    raise Violation(f"{where}: {fid} is in {f[fid].unit}", "unit name")

    async def live(self, where):
        keys = self.sim.meter_keys or ({"power"} if self.sim.is_bulb else set(KEYS))
        for w in self.ids:
            st = await self.energy(self.holder(w)).get_status()
            m = self.sim.meter[w]
            for k in KEYS:
                same(getattr(st, k), m[KEYS[k]] / 1000 if k in keys else None, f"{where}: live {k}", f"{k} unit")
        if self.ids != [None] and keys == set(KEYS):
            st = await self.energy(self.dev).get_status()
            for k in KEYS:
                want = sum(self.sim.meter[w][KEYS[k]] for w in self.ids) / 1000
                if k == "voltage":
                    if abs(st.voltage - want / len(self.ids)) > 0.001:
                        raise Violation(f"{where}: live strip voltage {st.voltage}, expected {want / len(self.ids)}", "voltage unit")
                else:
                    same(getattr(st, k), want, f"{where}: live strip {k}", "strip sum")

    async def stats(self, where, y, m, d, history=()):
        """Today, this month and the history."""
        from kasa.module import Module
        today = month = 0.0
        use_any = []
        for w in self.ids:
            h, mt, us = self.holder(w), self.sim.meter[w], self.sim.usage[w]
            e = self.energy(h)
            td, mo = mt["days"].get((y, m, d), 0) / 1000, mt["months"].get((y, m), 0) / 1000
            today, month = today + td, month + mo
            same(e.consumption_today, td, f"{where}, {w}: today", "today")
            same(e.consumption_this_month, mo, f"{where}, {w}: this month", "this month")
            same(h.features["consumption_today"].value, td, f"{where}, {w}: feature today", "today")
            same(h.features["consumption_this_month"].value, mo, f"{where}, {w}: feature this month", "this month")
            u = h.modules[Module.IotUsage]
            same(u.usage_today, us["days"].get((y, m, d)), f"{where}, {w}: usage today", "usage today")
            same(u.usage_this_month, us["months"].get((y, m)), f"{where}, {w}: usage this month", "usage this month")
            use_any.append(u)
        if self.ids != [None]:
            e = self.energy(self.dev)
            same(e.consumption_today, today, f"{where}: strip today", "strip sum")
            same(e.consumption_this_month, month, f"{where}: strip this month", "strip sum")
        for yy, mm, kwh in history:
            a, b = {k: v for k, v in (("year", yy), ("month", mm)) if v}, {"year": yy} if yy else {}
            ay, am = yy or y, mm or m
            k = 1000 if kwh else 1
            tot_d, tot_m = {}, {}
            for w in self.ids:
                h, mt, us = self.holder(w), self.sim.meter[w], self.sim.usage[w]
                wd = {x[2]: v / k for x, v in mt["days"].items() if x[:2] == (ay, am)}
                wm = {x[1]: v / k for x, v in mt["months"].items() if x[0] == ay}
                for t, s in ((tot_d, wd), (tot_m, wm)):
                    for x, v in s.items():
                        t[x] = t.get(x, 0) + v
                e = self.energy(h)
                same(await e.get_daily_stats(**a, kwh=kwh), wd, f"{where}, {w}: days of {ay}-{am} kwh={kwh}", "daily statistics")
                same(await e.get_monthly_stats(**b, kwh=kwh), wm, f"{where}, {w}: months of {ay} kwh={kwh}", "monthly statistics")
                u = h.modules[Module.IotUsage]
                same(await u.get_daystat(**a), {x[2]: v for x, v in us["days"].items() if x[:2] == (ay, am)}, f"{where}: usage days", "usage statistics")
                same(await u.get_monthstat(**b), {x[1]: v for x, v in us["months"].items() if x[0] == ay}, f"{where}: usage months", "usage statistics")
            if self.ids != [None]:
                e = self.energy(self.dev)
                same(dict(await e.get_daily_stats(**a, kwh=kwh)), tot_d, f"{where}: strip days", "strip sum")
                same(dict(await e.get_monthly_stats(**b, kwh=kwh)), tot_m, f"{where}: strip months", "strip sum")


async def readings(ctx, p):
    h = Legacy(p)
    if p["keys"] is not None:
        h.sim.meter_keys = set(p["keys"])
    core.set_host_time(DT(2024, 6, 15, 12, tzinfo=UTC).timestamp())
    combos = list(itertools.product(*VALUES.values())) if p["deep"] else [
        tuple(VALUES[k][c[0]] if n in pair else VALUES[k][c[1]] for n, k in enumerate(VALUES))
        for pair in itertools.combinations(range(4), 2) for c in itertools.product(range(4), repeat=2)]
    for n, c in enumerate(combos):
        for j, w in enumerate(h.ids):
            cc = combos[(n + 7 * j) % len(combos)]
            h.sim.meter[w].update(zip(VALUES, cc, strict=True))
        await h.update()
        h.readings(f"{p['units']} units {p['keys']}, {c}")
        if n % 8 == 0:
            for w in h.ids:  # measured since the update
                for k in VALUES:
                    h.sim.meter[w][k] += 3000
            await h.live(f"{p['units']} units {p['keys']}, {c}")
        ctx.note(p["units"], p["keys"], c)


def dates(deep):
    out = []
    d = _real.date(2023, 1, 1)
    while d.year < 2026:
        nxt = d + TD(days=1)
        if deep or d.day == 1 or nxt.month != d.month or (d.month, d.day) in ((2, 28), (6, 15)):
            out.append((d.year, d.month, d.day))
        d = nxt
    return out


async def calendar(ctx, p):
    h = Legacy(p)
    alpha = (None, 0, 5, 43_210)
    combos = list(itertools.product(alpha, repeat=2))
    ds = dates(p["deep"])
    for n, (y, m, d) in enumerate(ds):
        for late in (False, True):
            loc = DT(y, m, d, 23, 59, 30) if late else DT(y, m, d, 0, 0, 5)
            core.set_host_time(loc.timestamp())  # local time of the host
            prev = _real.date(y, m, d) - TD(days=1)
            lastm = (y, m - 1) if m > 1 else (y - 1, 12)
            for j, w in enumerate(h.ids):
                for src, c in ((h.sim.meter, n + 3 * j), (h.sim.usage, n + 5 * j + 1)):
                    t, o = combos[(c + (9 if late else 0)) % 16]
                    days = {(prev.year, prev.month, prev.day): o, (y, m, d): t, (y - 1, m, min(d, 28)): 777, (y, m % 12 + 1, min(d, 28)): 888}
                    months = {lastm: o, (y, m): t, (y - 1, m): 999}
                    if d > 2:
                        days[(y, m, 2)] = 31 + j
                    src[w]["days"] = {k: v for k, v in days.items() if v is not None}
                    src[w]["months"] = {k: v for k, v in months.items() if v is not None}
            await h.update()
            hist = [(None, None, True), (None, None, False), (prev.year, prev.month, True), (y - 1, m, False), (y - 1, m, True), (y + 1, 1, True)]
            await h.stats(f"host at {loc}", y, m, d, hist if n % 4 == 0 else hist[:1])
            ctx.note(y, m, d, late)


async def erase(ctx, p):
    h = Legacy(p)
    core.set_host_time(DT(2024, 6, 15, 12).timestamp())
    await h.update()
    before = {w: dict(m["months"]) for w, m in h.sim.usage.items()}
    await h.energy(h.dev).erase_stats()
    if any(h.sim.meter[w]["days"] or h.sim.meter[w]["months"] for w in h.ids):
        raise Violation("erasing left energy statistics", "erase")
    if {w: dict(m["months"]) for w, m in h.sim.usage.items()} != before:
        raise Violation("erasing energy statistics erased usage", "erase")
    await h.update()
    await h.stats("after erasing", 2024, 6, 15, [(None, None, True)])
    ctx.note("erase")


# ---------------------------------------------------------------- SMART
SMART = {"v1": ("P110(EU)_1.0_1.0.7.json", 1), "v2": ("P115(EU)_1.0_1.2.3.json", 2), "v2-meter": ("P110M(EU)_1.0_1.2.3.json", 2),
         "sockets": ("P304M(UK)_1.0_1.0.3.json", 2)}


async def smart(ctx, p):
    from kasa.exceptions import KasaException
    from kasa.module import Module
    fix, ver = SMART[p["device"]]
    s = sim.SmartSim.fixture(fix)
    # meter data present in any combination the firmware versions show
    dev = sim.smart_device(s)
    units = [s] if p["device"] != "sockets" else list(s.children.values())
    for u in units:
        for m in ("get_energy_usage", "get_emeter_data", "get_current_power"):
            u.get(m, None)
    if not p["usage"]:
        s.fault = lambda who, m, prm: -1001 if m == "get_energy_usage" else 0
    await dev.update()
    alpha = list(itertools.product((0, 1, 1234, 3_680_000), (0, 20, 99_999), (0, 1500)))
    for n, (mw, today, month) in enumerate(alpha):
        want = {}
        for j, u in enumerate(units):
            mw_, td_, mo_ = alpha[(n + 5 * j) % len(alpha)]
            mv, ma = (0, 121_215, 240_001)[(n + j) % 3], (0, 33, 16_000)[(n // 3 + j) % 3]
            if p["usage"]:
                us = u.info["get_energy_usage"] = {"current_power": mw_, "today_energy": td_, "month_energy": mo_, "electricity_charge": [0, 0, 0],
                                                   "local_time": "2024-01-01 00:00:00", "month_runtime": 5, "today_runtime": 2}
                for k in p["drop"]:
                    us.pop(k, None)
            if ver > 1:
                u.info["get_emeter_data"] = {"current_ma": ma, "voltage_mv": mv, "power_mw": mw_, "energy_wh": 971} if p["meter"] else {}
                u.info["get_current_power"] = {"current_power": mw_ // 1000}
            want[u] = dict(
                power=mw_ / 1000 if (p["usage"] and "current_power" not in p["drop"]) or (ver > 1 and p["meter"]) else mw_ // 1000 if ver > 1 else None,
                today=td_ / 1000 if p["usage"] and "today_energy" not in p["drop"] else None,
                month=mo_ / 1000 if p["usage"] and "month_energy" not in p["drop"] else None,
                voltage=mv / 1000 if ver > 1 and p["meter"] else None, current=ma / 1000 if ver > 1 and p["meter"] else None)
        await asyncio.sleep(1)
        await dev.update()
        for u, w in want.items():
            d = dev if u is s else next(c for c in dev.children if c.device_id == u.sys["device_id"])
            where = f"{p}, {mw} mW, {today} Wh today, {month} Wh"
            e = d.modules[Module.Energy]
            got = dict(power=e.current_consumption, today=e.consumption_today, month=e.consumption_this_month, voltage=e.voltage, current=e.current)
            for k in w:
                same(got[k], w[k], f"{where}: {k}", f"{k} unit")
            f = d.features
            for fid, k, unit in (("current_consumption", "power", "W"), ("consumption_today", "today", "kWh"), ("consumption_this_month", "month", "kWh"),
                                 ("voltage", "voltage", "V"), ("current", "current", "A")):
                if fid in f:
                    same(f[fid].value, w[k], f"{where}: feature {fid}", f"{k} unit")
                    if f[fid].unit != unit:
                        raise Violation(f"{where}: {fid} is in {f[fid].unit}", "unit name")
            if w["power"] is not None and (p["meter"] or p["usage"] and "current_power" not in p["drop"]) and (ver == 1 or p["meter"]):
                for src in ("status", "live"):
                    if src == "live":  # measured since the update
                        moved = {"power": 7000, "voltage": 1000, "current": 5}
                        for m, k in (("get_energy_usage", "current_power"), ("get_emeter_data", "power_mw")):
                            if k in (u.info.get(m) or {}):
                                u.info[m][k] += 7000
                        for k, by in (("voltage_mv", 1000), ("current_ma", 5)):
                            if k in (u.info.get("get_emeter_data") or {}):
                                u.info["get_emeter_data"][k] += by
                        w = {k: v if v is None else v + moved.get(k, 0) / 1000 for k, v in w.items()}
                        st = await e.get_status()
                    else:
                        st = e.status
                    same(st.power, w["power"], f"{where}: {src} power", "power unit")
                    for k in ("voltage", "current"):
                        same(getattr(st, k), w[k], f"{where}: {src} {k}", f"{k} unit")
            if e.consumption_total is not None:
                raise Violation(f"{where}: total {e.consumption_total}", "total unit")
        if n % 8 == 0:  # nothing measured: no figure is made up
            old, s.fault = getattr(s, "fault", None), lambda who, m, prm: -1001 if "energy" in m or "emeter" in m or m == "get_current_power" else 0
            await asyncio.sleep(1)
            await dev.update()
            for d in [dev] if p["device"] != "sockets" else dev.children:
                e = d.modules[Module.Energy]
                for k in ("current_consumption", "consumption_today", "consumption_this_month", "voltage", "current"):
                    try:
                        v = getattr(e, k)
                    except KasaException:
                        continue
                    if v is not None:
                        raise Violation(f"{p}: {k} is {v} though the device measured nothing", "stale figure")
            s.fault = old
            await asyncio.sleep(3600)
        ctx.note(p["device"], mw, today, month)


MODES = dict(readings=readings, calendar=calendar, erase=erase, smart=smart)


def run(ctx, p):
    async def main(loop):
        await MODES[p["name"]](ctx, p)
        ctx.obs.append((p["name"],))

    with Env(p.get("host", "UTC")):
        core.run_loop(ctx, main)


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    subsets = [None] + [k for n in range(1, 5) for k in itertools.combinations(KEYS, n) if "power" in k]
    for dv in IOT:
        for u in ("new", "old"):
            for ks in subsets:
                if dv == "bulb" and ks not in (None, ("power",)):
                    continue
                out.append(dict(name="readings", device=dv, units=u, keys=ks, deep=deep, budget=0))
            for hz in ("UTC", "America/Los_Angeles", "Pacific/Auckland"):
                out.append(dict(name="calendar", device=dv, units=u, host=hz, deep=deep, budget=0))
            out.append(dict(name="erase", device=dv, units=u, budget=0))
    for dv, (_, ver) in SMART.items():
        for meter in ((True, False) if ver > 1 else (False,)):
            for usage in (True, False) if ver > 1 else (True,):
                for drop in ((), ("current_power",), ("today_energy",), ("month_energy",), ("current_power", "today_energy", "month_energy")) if usage else ((),):
                    if ver == 1 and "current_power" in drop:
                        continue
                    out.append(dict(name="smart", device=dv, meter=meter, usage=usage, drop=drop, budget=0))
    return out
