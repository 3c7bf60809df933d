"""C20: device time: what is set is what the device shows, in its time zone."""

from __future__ import annotations

import asyncio
import datetime as _real
import os
import time as _time
import zoneinfo
from zoneinfo import ZoneInfo

from mc import core
from mc.core import Violation

DT, TD, UTC, FIXED = _real.datetime, _real.timedelta, _real.timezone.utc, _real.timezone  # before the virtual clock
core.install_datetime()

from mc import iotsim, sim  # noqa: E402

BOUNDS = {
    "quick": "every zone the legacy firmware knows (also on SMART and camera devices) x instants on both sides of every offset change in 2024-2026, year ends, leap day, range ends; read, set with the zone, set naive, set with fixed offsets every 30 minutes, move between zones; host in three zones",
    "thorough": "every IANA zone of the system, offset changes in 2015-2035",
}
ASSUMPTIONS = "legacy devices report local fields only, so the two passes of a repeated hour cannot be told apart (either instant is accepted); a device without a given zone may use another one with the same offsets all year"


# ---------------------------------------------------------------- instants
_INST = {}


def instants(name, y0, y1):
    """Instants around every offset change of the zone, plus fixed ones."""
    key = name, y0, y1
    if key in _INST:
        return _INST[key]
    tz = ZoneInfo(name)
    off = lambda t: DT.fromtimestamp(t, tz).utcoffset()  # noqa: E731
    out = [int(DT(y, 7, 1, 12, tzinfo=UTC).timestamp()) for y in range(y0, y1 + 1)]
    out += [int(DT(2024, 2, 29, 23, 30, tzinfo=UTC).timestamp()), int(DT(2025, 12, 31, 23, 59, 59, tzinfo=UTC).timestamp()), 86400 * 365, 2**31 - 2]
    t = int(DT(y0, 1, 1, tzinfo=UTC).timestamp())
    end = int(DT(y1 + 1, 1, 1, tzinfo=UTC).timestamp())
    while t < end:
        n = t + 86400 * 7
        if off(t) != off(n):
            lo, hi = t, n
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if off(mid) == off(lo):
                    lo = mid
                else:
                    hi = mid
            out += [hi - 7200, hi - 3600, hi - 1800, hi - 1, hi, hi + 1, hi + 1800, hi + 3600, hi + 7200, hi + 86400]
        t = n
    _INST[key] = out
    return out


def ambiguous(t, tz):
    d = DT.fromtimestamp(t, tz)
    return d.replace(fold=0).utcoffset() != d.replace(fold=1).utcoffset()


def same_rules(a, b, year):
    d = DT(year, 1, 1, 12)
    return all(a.utcoffset(d + TD(days=n)) == b.utcoffset(d + TD(days=n)) for n in range(365))


# ---------------------------------------------------------------- devices
class Smart:
    local = False

    def __init__(self, fix, hub=False):
        self.sim = sim.SmartSim.fixture(fix)
        self.hub = hub
        self.sim.get("get_device_time", None)
        self.set(1_700_000_000, "Europe/Amsterdam")
        self.dev = sim.smart_device(self.sim)

    def set(self, t, name):
        g = self.sim.info["get_device_time"]
        off = DT.fromtimestamp(t, ZoneInfo(name)).utcoffset()
        g.update(timestamp=t, region=name, time_diff=int(off / TD(minutes=1)))

    def instant(self):
        return self.sim.info["get_device_time"]["timestamp"]

    def zone(self):
        return self.sim.info["get_device_time"].get("region")

    def consistent(self, where, t, off):
        g = self.sim.info["get_device_time"]
        if g["time_diff"] != int(off / TD(minutes=1)):
            raise Violation(f"{where}: the device's offset is {g['time_diff']} minutes, expected {off}", "device offset")


class Cam(Smart):
    def __init__(self, fix, hub=False):
        self.sim = sim.CamSim.fixture(fix)
        self.hub = hub
        self.set(1_700_000_000, "Europe/Amsterdam")
        self.dev = sim.smart_device(self.sim)

    @property
    def clock(self):
        return self.sim.info["getClockStatus"]["system"]["clock_status"]

    @property
    def basic(self):
        return self.sim.info["getTimezone"]["system"]["basic"]

    def set(self, t, name):
        d = DT.fromtimestamp(t, ZoneInfo(name))
        self.clock.update(seconds_from_1970=t, local_time=d.strftime("%Y-%m-%d %H:%M:%S"))
        self.basic.update(zone_id=name, timezone="UTC" + d.strftime("%z")[:3] + ":" + d.strftime("%z")[3:5])

    def instant(self):
        return self.clock["seconds_from_1970"]

    def zone(self):
        return self.basic["zone_id"]

    def consistent(self, where, t, off):
        want = (DT.fromtimestamp(t, UTC) + off).strftime("%Y-%m-%d %H:%M:%S")
        if self.clock["local_time"] != want:
            raise Violation(f"{where}: the camera shows {self.clock['local_time']}, expected {want}", "camera local time")


class Iot:
    local = True

    def __init__(self, fix, hub=False):
        from kasa.iot.iottimezone import TIMEZONE_INDEX
        self.table = TIMEZONE_INDEX
        self.sim = iotsim.IotSim(iotsim.load("iot", fix))
        self.hub = hub
        self.set(1_700_000_000, "Europe/Amsterdam")
        self.dev = iotsim.iot_device(self.sim)

    def set(self, t, name):
        self.sim.tz_index = next(i for i, n in self.table.items() if n == name)
        d = DT.fromtimestamp(t, ZoneInfo(name))
        self.sim.clock = dict(year=d.year, month=d.month, mday=d.day, hour=d.hour, min=d.minute, sec=d.second)

    def zone(self):
        return self.table.get(self.sim.tz_index)

    def instant(self):
        c = self.sim.clock
        return int(DT(c["year"], c["month"], c["mday"], c["hour"], c["min"], c["sec"], tzinfo=ZoneInfo(self.zone())).timestamp())

    def consistent(self, where, t, off):
        c = self.sim.clock
        got = DT(c["year"], c["month"], c["mday"], c["hour"], c["min"], c["sec"])
        want = DT.fromtimestamp(t, UTC).replace(tzinfo=None) + off
        if got != want:
            raise Violation(f"{where}: the device's clock shows {got}, expected {want}", "device clock")


DEVICES = {
    "plug": (Iot, "HS110(EU)_4.0_1.0.4.json"), "bulb": (Iot, "KL130(EU)_1.0_1.8.8.json"), "powerstrip": (Iot, "KP303(UK)_1.0_1.0.3.json"),
    "smart": (Smart, "P115(EU)_1.0_1.2.3.json"), "hub": (Smart, "H100(EU)_1.0_1.5.10.json"), "multi": (Smart, "P300(EU)_1.0_1.0.15.json"),
    "camera": (Cam, "C210(EU)_2.0_1.4.2.json"), "camhub": (Cam, "H200(EU)_1.0_1.3.2.json"),
}


class Env:
    """The host's own zone must not matter."""

    def __init__(self, name):
        self.name = name

    def __enter__(self):
        self.old = os.environ.get("TZ")
        os.environ["TZ"] = self.name
        _time.tzset()

    def __exit__(self, *a):
        if self.old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = self.old
        _time.tzset()


def time_mod(dev):
    from kasa.module import Module
    return dev.modules[Module.Time]


class Run:
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        cls, fix = DEVICES[p["device"]]
        self.d = cls(fix)
        self.n = 0

    async def update(self):
        await asyncio.sleep(2)
        await self.d.dev.update()

    def check_read(self, where, t, zone=None, rules=None, off=None):
        """The library shows the instant and the zone the device has."""
        dev = self.d.dev
        for who, d in [("device", dev), *[("child", c) for c in dev.children[:1]]]:
            got = d.time
            if got.tzinfo is None:
                raise Violation(f"{where}: the {who}'s time {got!r} has no zone", "time zone")
            gt = got.timestamp()
            ok = gt == t
            if not ok and self.d.local:
                tz = got.tzinfo
                ok = ambiguous(t, tz) and {got.replace(fold=0).timestamp(), got.replace(fold=1).timestamp()} >= {t}
            if not ok:
                raise Violation(f"{where}: the {who}'s time reads {got.isoformat()}, expected {DT.fromtimestamp(t, UTC).isoformat()}", "instant")
            key = getattr(got.tzinfo, "key", None)
            if zone is not None and key != zone:
                raise Violation(f"{where}: the {who}'s zone reads {got.tzinfo}, expected {zone}", "zone")
            if rules is not None and not same_rules(got.tzinfo, rules, core_year()):
                raise Violation(f"{where}: the {who}'s zone reads {got.tzinfo}, not the same as {rules}", "zone")
            if off is not None and got.utcoffset() != off:
                raise Violation(f"{where}: the {who}'s offset reads {got.utcoffset()}, expected {off}", "zone")
            if d.timezone.utcoffset(got) != got.utcoffset():
                raise Violation(f"{where}: the {who}'s timezone is {d.timezone}", "zone")
        f = dev.features.get("device_time")
        if f is not None and f.value != dev.time:
            raise Violation(f"{where}: the feature shows {f.value}", "instant")
        self.n += 1


NOW = 1_752_000_000  # the host's clock, July 2025


def core_year():
    return 2025


async def read(r, p):
    await r.d.dev.update()
    for t in instants(p["zone"], *p["years"]):
        r.d.set(t, p["zone"])
        await r.update()
        r.check_read(f"device at {t} in {p['zone']}", t, zone=p["zone"])


async def set_zone(r, p):
    """Set with the zone, coming from another one; then naive times."""
    tz = ZoneInfo(p["zone"])
    dev, d = r.d.dev, r.d
    for k, t in enumerate(instants(p["zone"], *p["years"])):
        if k < 4 or k % 3 == 0:  # from another zone, otherwise from the one set last
            d.set(1_700_000_000, p["from"][k % len(p["from"])])
            await r.update()
        want = DT.fromtimestamp(t, tz)
        known = not d.local or p["zone"] in d.table.values()
        if not known and (want.year != core_year() or DT.fromtimestamp(t - 90_000, tz).utcoffset() != DT.fromtimestamp(t + 90_000, tz).utcoffset()):
            continue  # another zone with the same offsets on every day of this year, whatever the hour they change
        where = f"setting {want.isoformat()} [{p['zone']}]"
        await time_mod(dev).set_time(want.replace(microsecond=0 if k % 3 else 999_999))
        if d.sim.unknown_keys:
            raise Violation(f"{where}: the device does not know {d.sim.unknown_keys}", "unknown keys")
        if known and d.zone() != p["zone"] or not same_rules(ZoneInfo(d.zone()), tz, core_year()):
            raise Violation(f"{where}: the device's zone is {d.zone()}", "device zone")
        if d.instant() != t and not (d.local and ambiguous(t, tz)):
            raise Violation(f"{where}: the device is at {d.instant()}, expected {t}", "device instant")
        d.consistent(where, t, want.utcoffset())
        await r.update()
        r.check_read(where, t, zone=d.zone())
        # now without a zone
        naive = want.replace(tzinfo=None)
        if DT.fromtimestamp(naive.replace(tzinfo=tz).timestamp(), tz).replace(tzinfo=None) != naive.replace(fold=0):
            continue  # no such local time
        zone = d.zone()
        for local in (naive, (naive + TD(days=182)).replace(hour=12)):  # and in another season
            if local.year > p["years"][-1] + 1:
                continue
            await time_mod(dev).set_time(local)
            t2 = int(local.replace(tzinfo=tz).timestamp())
            where = f"setting {local.isoformat()} (no zone) in {zone}"
            if d.zone() != zone:
                raise Violation(f"{where}: the device's zone became {d.zone()}", "device zone")
            if local is not naive:
                t2 = int(local.replace(tzinfo=ZoneInfo(zone)).timestamp())
            if d.instant() != t2 and not (d.local and ambiguous(t2, tz)):
                raise Violation(f"{where}: the device is at {d.instant()}, expected {t2}", "device instant")
            d.consistent(where, t2, local.replace(tzinfo=tz if local is naive else ZoneInfo(zone)).utcoffset())
            await r.update()
            r.check_read(where, t2, zone=zone)


async def fixed(r, p):
    """Zones given by an offset only."""
    dev, d = r.d.dev, r.d
    await dev.update()
    t0 = NOW
    for m in range(-12 * 60, 14 * 60 + 1, 30):
        for tz in ([FIXED(TD(minutes=m))] + ([UTC] if m == 0 else []) + ([FIXED(TD(minutes=m), "Local")] if m % 60 == 0 else [])):
            d.set(1_700_000_000, "Europe/Amsterdam")
            await r.update()
            n, old = d.sim.sends, d.instant()
            want = DT.fromtimestamp(t0, tz)
            where = f"setting {want.isoformat()} [{tz}]"
            try:
                await time_mod(dev).set_time(want)
            except ValueError:
                if not d.local or any(same_rules(ZoneInfo(z), tz, core_year()) for z in set(d.table.values())):
                    raise Violation(f"{where} was refused", "zone refused") from None
                if d.sim.sends != n or d.instant() != old:
                    raise Violation(f"{where} was refused but sent", "zone refused") from None
                continue
            except Exception as ex:  # noqa: BLE001
                raise Violation(f"{where} raised {ex!r}", "zone refused") from None
            if d.sim.unknown_keys:
                raise Violation(f"{where}: the device does not know {d.sim.unknown_keys}", "unknown keys")
            await r.update()
            if isinstance(d, Cam):  # cameras only take named zones
                d.consistent(where, t0, DT.fromtimestamp(t0, ZoneInfo("Europe/Amsterdam")).utcoffset())
                r.check_read(where, t0, zone="Europe/Amsterdam")
            elif d.local:
                r.check_read(where, t0, rules=tz, off=want.utcoffset())
            else:
                d.consistent(where, t0, want.utcoffset())
                r.check_read(where, t0, off=want.utcoffset())


async def odd(r, p):
    """Regions the library does not know: the device's own offset counts."""
    d = r.d
    await d.dev.update()
    for t in (1_700_000_000, 1_720_000_000):
        for m in range(-12 * 60, 14 * 60 + 1, 15):
            for name in ("", "Mars/Olympus", "UTC+02:00"):
                off = TD(minutes=m)
                if isinstance(d, Cam):
                    if not name:
                        continue
                    d.set(t, "Etc/UTC")
                    sign = "-" if m < 0 else "+"
                    d.basic.update(zone_id=name, timezone=f"UTC{sign}{abs(m) // 60:02}:{abs(m) % 60:02}")
                else:
                    d.set(t, "Etc/UTC")
                    d.sim.info["get_device_time"].update(region=name, time_diff=m)
                await r.update()
                r.check_read(f"device in {name!r} at offset {m} minutes", t, off=off)
        if not isinstance(d, Cam):
            d.sim.info["get_device_time"].pop("region")
            await r.update()
            r.check_read("device without a region", t, off=TD(minutes=840))


async def derived(r, p):
    """Times computed from the device's time."""
    d, dev = r.d, r.d.dev
    tz = ZoneInfo(p["zone"])
    await dev.update()
    for t in instants(p["zone"], *p["years"]):
        if t < 10**9 or (d.local and ambiguous(t, tz)):
            continue
        for sec in (0, 3, 5400, 86400, 200_000):
            d.set(t, p["zone"])
            holders = []
            if isinstance(d, Iot):
                for w in d.sim.who_ids:
                    if w is None and d.sim.is_strip:
                        continue
                    tgt = d.sim.sys if w is None else d.sim.socket(w)
                    tgt["relay_state" if w is None else "state"], tgt["on_time"] = 1, sec
                holders = [dev, *dev.children]
            else:
                for s in [d.sim, *d.sim.children.values()]:
                    i = s.info.get("get_device_info", {})
                    if "on_time" in i:
                        i["device_on"], i["on_time"] = True, sec
                    if "auto_off_status" in i:
                        i["auto_off_status"], i["auto_off_remain_time"] = "on", sec
                holders = [x for x in [dev, *dev.children] if "on_time" in x.sys_info]
            await r.update()
            for x in holders:
                got = x.on_since
                if got is None or abs(got.timestamp() - (t - sec)) > 5 and not (
                        d.local and ambiguous(t - sec, tz) and abs(got.replace(fold=1 - got.fold).timestamp() - (t - sec)) <= 5):
                    raise Violation(f"at {DT.fromtimestamp(t, tz)}, on for {sec} s: on since {got}", "on since")
                if "on_since" in x.features and x.features["on_since"].value != got:
                    raise Violation("on_since feature differs", "on since")
                f = x.features.get("auto_off_at")
                if f is not None and "auto_off_status" in x.sys_info and (
                        f.value is None or abs(f.value.timestamp() - (t + sec)) > 1):
                    raise Violation(f"at {DT.fromtimestamp(t, tz)}, off in {sec} s: auto off at {f.value}", "auto off")
                r.n += 1


MODES = dict(read=read, set=set_zone, fixed=fixed, odd=odd, derived=derived)


def run(ctx, p):
    async def main(loop):
        core.set_host_time(NOW)
        r = Run(ctx, p)
        await MODES[p["name"]](r, p)
        ctx.note(p["name"], p["device"], p.get("zone"))
        for _ in range(r.n):
            ctx.note("time")
        ctx.obs.append((p["name"],))

    with Env(p["host"]):
        core.run_loop(ctx, main)


def scenarios(tier):
    from kasa.iot.iottimezone import TIMEZONE_INDEX
    deep = tier == "thorough"
    legacy = list(dict.fromkeys(TIMEZONE_INDEX.values()))
    every = sorted(n for n in zoneinfo.available_timezones() if n not in ("Factory", "localtime")) if deep else legacy
    years = (2015, 2035) if deep else (2024, 2026)
    out = []
    hosts = ["UTC", "America/New_York", "Asia/Kolkata"]
    froms = ["Europe/Amsterdam", "CST6CDT", "Asia/Kolkata"]
    for n, z in enumerate(every):
        for dv in DEVICES:
            iot = DEVICES[dv][0] is Iot
            base = dict(device=dv, zone=z, years=years, host=hosts[n % 3], budget=0)
            main = dv in ("plug", "smart", "camera")
            if not deep and not main and n % 6:
                continue
            if deep and not main and (n % 10 or z not in legacy):
                continue
            if not iot or z in legacy:
                out.append(dict(name="read", **base))
            if not iot or z in legacy or any(same_rules(ZoneInfo(z), ZoneInfo(x), core_year()) for x in legacy):
                out.append(dict(name="set", **{"from": froms}, **base))
    for z in ("Europe/Amsterdam", "CST6CDT", "America/New_York", "Australia/Adelaide", "Australia/Lord_Howe", "Asia/Kolkata"):
        for dv in ("plug", "bulb", "powerstrip", "smart", "multi"):
            if dv in ("plug", "bulb", "powerstrip") and z not in legacy:
                continue
            if dv == "bulb":
                continue
            out.append(dict(name="derived", device=dv, zone=z, years=years, host=hosts[1], budget=0))
    for dv in DEVICES:
        for h in hosts:
            out.append(dict(name="fixed", device=dv, host=h, budget=0))
            if DEVICES[dv][0] is not Iot:
                out.append(dict(name="odd", device=dv, host=h, budget=0))
    return out
