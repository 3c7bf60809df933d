"""C23: a firmware update terminates and reports the device's progress."""

from __future__ import annotations

import asyncio

from mc import core, sim
from mc.core import Violation
from mc.fake import make_transport

core.install_datetime()

BOUNDS = {
    "quick": "every sequence of 3 fates of the state polls over {idle, unknown 1 and 7, downloading 10 and 100, flashing 5, 60 or 400 s, failed, malformed, error codes, dropped connection, no answer, rejected credentials} followed by each of {idle, silent, error, rejected, downloading for ever} x {no, instant, slow callback} x fates of the update command; a cancellation anywhere; every firmware check history of length 2 over every combination of type, version, date, cloud state and failures; every update refused; on a plug, a bulb, a strip and a hub with and without the optional fields",
    "thorough": "sequences of 5 fates",
}
ASSUMPTIONS = ("the five minutes an update may take count from the accepted update command; progress callbacks do not fail; "
               "a device without a cloud component (hub children) cannot be checked")

FIX = {"plug": "P100(US)_1.0.0_1.4.0.json", "bulb": "L530E(EU)_3.0_1.1.6.json", "strip": "P300(EU)_1.0_1.0.15.json",
       "hub": "H100(EU)_1.0_1.5.10.json"}
HANG = 5.0
LIMIT = 300.0
STATES = {"idle": (0, 100, 0), "prep": (1, 0, 5), "odd": (7, 50, 5), "down10": (2, 10, 5), "down100": (2, 100, 5),
          "flash5": (3, 100, 5), "flash60": (3, 100, 60), "flash400": (3, 100, 400), "failed": (-1, 30, 5), "failed3": (-3, 0, 0)}
FAULTS = ("malformed", "error", "errorretry", "drop", "hang", "auth")
SHORT = ("prep", "down10", "flash5", "malformed", "drop", "hang", "idle")
TAILS = ("idle", "hang", "error", "auth", "down10")


def scenarios(tier):
    th = tier == "thorough"
    out = []
    alpha = tuple(STATES) + FAULTS
    for first in alpha:
        for tail in TAILS:
            out.append(dict(name="flow", fix="plug", depth=5 if th else 3, first=first, tail=tail, cb="instant", alpha="all" if not th else "mid", start="ok"))
    for fix in FIX:
        for cb in ("none", "instant", "slow"):
            for tail in TAILS:
                out.append(dict(name="flow", fix=fix, depth=4 if th else 2, first=None, tail=tail, cb=cb, alpha="all", start="ok", optional=fix != "plug"))
    for start in ("error", "drop", "dropdone", "hang", "hangdone", "auth", "errorretry", "dead"):
        out.append(dict(name="flow", fix="plug", depth=2, first=None, tail="idle", cb="instant", alpha="short", start=start))
        out.append(dict(name="flow", fix="hub", depth=1, first=None, tail="error", cb="none", alpha="short", start=start))
    for tail in ("idle", "hang"):
        out.append(dict(name="flow", fix="plug", depth=3 if th else 2, first=None, tail=tail, cb="slow", alpha="short", start="ok", cancel=1))
    for fix in FIX:
        out.append(dict(name="poll", fix=fix, depth=3 if th else 2, first=None, tail="idle", cb="instant", alpha="short", start="ok", every=1.7))
        for cloud in (0, 1, "error"):
            out.append(dict(name="avail", fix=fix, cloud=cloud, n=3 if th and fix == "plug" else 2))
        out.append(dict(name="refused", fix=fix))
    return out


class Dev:
    def __init__(self, p, ctx, loop):
        from kasa import Credentials
        from kasa.protocols import SmartProtocol
        self.p, self.ctx, self.loop = p, ctx, loop
        self.s = sim.SmartSim.fixture(FIX[p["fix"]])
        self.latest = {"type": 2, "fw_ver": "9.9.9 Build 1", "release_date": "2024-02-29", "release_note": "n", "need_to_upgrade": True,
                       "fw_size": 5, "hw_id": "", "oem_id": "o"}
        self.cloud = 0
        self.tape = None
        self.polls = []  # (time, fate)
        self.downloads = []  # (time, fate)
        self.times = []  # every request after the update command
        tr = make_transport("127.0.0.123", self.handle, credentials=Credentials("a@b.c", "pw"))
        self.dev = sim.smart_device(self.s, SmartProtocol(transport=tr))

    # what the wire asks for, as (method)
    async def handle(self, req, tr):
        names = [m for who, m in sim.flatten(req) if who == "parent"]
        self.times.append((self.loop.time(), names))
        if names == ["get_fw_download_state"]:
            return await self.poll()
        if names == ["fw_download"]:
            return await self.download()
        if "fw_download" in names or "get_fw_download_state" in names:
            raise core.HarnessError("firmware method in a batch")
        self.s.info["get_connect_cloud_state"] = {"status": self.cloud}
        self.s.fault = lambda who, m, prm: -1008 if m == "get_connect_cloud_state" and self.cloud == "error" else 0
        if names == ["get_latest_fw"]:
            a = self.latest
            if isinstance(a, str):
                return await self.bad(a)
            return {"error_code": 0, "result": a}
        return self.s.answer(req)

    async def bad(self, fate):
        from kasa.exceptions import AuthenticationError, SmartErrorCode, _ConnectionError
        if fate == "malformed":
            return {"error_code": 0, "result": {}}
        if fate == "error":
            return {"error_code": -1008}
        if fate == "errorretry":
            return {"error_code": SmartErrorCode.SESSION_TIMEOUT_ERROR.value}
        if fate == "drop":
            raise _ConnectionError("reset by peer")
        if fate == "auth":
            raise AuthenticationError("rejected", error_code=SmartErrorCode.LOGIN_ERROR)
        if fate in ("hang", "dead"):
            await asyncio.sleep(HANG)
            from kasa.exceptions import TimeoutError as KTimeout
            raise KTimeout("no answer")
        raise core.HarnessError(fate)

    async def poll(self):
        i = len(self.polls)
        p = self.p
        if i >= p["depth"]:
            f = p["tail"]
        elif i == 0 and p["first"]:
            f = p["first"]
        else:
            al = {"all": tuple(STATES) + FAULTS, "short": SHORT,
                  "mid": ("idle", "odd", "down10", "flash5", "flash400", "malformed", "drop", "hang")}[p["alpha"]]
            f = self.ctx.pick(al, "poll")
        self.polls.append([self.loop.time(), f, None])
        if i < p["depth"]:
            self.ctx.note("poll", f)
        if f in STATES:
            st, pr, up = STATES[f]
            a = {"status": st, "download_progress": pr, "reboot_time": 5, "upgrade_time": up}
            if p.get("optional", True):
                a["auto_upgrade"] = False
            if p["fix"] == "hub":
                a["cloud_cache_seconds"] = 1
            return {"error_code": 0, "result": a}
        return await self.bad(f)

    async def download(self):
        p = self.p
        f = p["start"]
        if self.downloads and f != "dead":
            f = "ok"
        self.downloads.append((self.loop.time(), f))
        if f == "dropdone":
            f = "drop"
        if f == "hangdone":
            f = "hang"
        if f == "ok":
            return {"error_code": 0}
        return await self.bad(f)


def run(ctx, p):
    core.run_loop(ctx, {"flow": flow, "poll": flow, "avail": avail, "refused": refused}[p["name"]](ctx, p))


def flow(ctx, p):
    async def main(loop):
        ctx.max_steps = 20000
        from kasa.module import Module
        d = Dev({**p, "optional": p.get("optional", True)}, ctx, loop)
        await d.dev.update()
        fw = d.dev.modules[Module.Firmware]
        await fw.check_latest_firmware()
        if fw.update_available is not True:
            raise Violation(f"an update is available but update_available is {fw.update_available}", "availability")
        d.times.clear()
        calls = []  # (time, status, progress)
        ended = []

        async def cb(state):
            calls.append((state.status, state.progress, state.upgrade_time))
            if p["cb"] == "slow":
                await asyncio.sleep(2)
            ended.append(1)

        loop.cancel_budget = 0
        stop = []

        async def poller():
            while not stop:
                await asyncio.sleep(p["every"])
                try:
                    await d.dev.update()
                except Exception:  # noqa: BLE001
                    pass
        bg = loop.create_task(poller()) if p.get("every") else None
        at_return = []

        async def go():
            try:
                return await (fw.update() if p["cb"] == "none" else fw.update(progress_cb=cb))
            finally:
                at_return.extend(calls)
        task = loop.create_task(go())
        if p.get("cancel"):
            loop.cancel_budget = 1
            loop.cancellable("update", task)
        t0 = loop.time()
        try:
            done, _ = await asyncio.wait([task], timeout=1500)
        finally:
            loop.cancel_budget = 0
        t1 = loop.time()
        if not done:
            task.cancel()
            raise Violation("the update call is still running after 25 minutes", "no end")
        stop.append(1)
        if bg:
            bg.cancel()
            await asyncio.gather(bg, return_exceptions=True)
        nreq = len(d.times)
        cancelled = task.cancelled()
        err = None if cancelled else task.exception()
        # -- the update command
        fates = [f for _, f in d.downloads]
        accepted = bool(fates) and fates[-1] == "ok"
        if fates.count("ok") > 1 or any(f in ("error", "auth") for f in fates[:-1]):
            raise Violation(f"update command repeated although answered: {fates}", "repeated command")
        if not cancelled and not fates:
            raise Violation("no update command was sent", "no command")
        if not accepted:
            if d.polls or calls:
                raise Violation(f"polls after a refused update command: {fates}", "poll after refusal")
            if not cancelled and err is None:
                raise Violation(f"update() succeeded although the update command failed: {fates}", "refusal hidden")
            return
        t0 = d.downloads[-1][0]
        # -- the states the device reported
        valid = []
        end = None
        for t, f, _ in d.polls:
            if f in STATES:
                valid.append((t, f))
                if end is not None:
                    raise Violation(f"polled again after {end[1]}", "poll after end")
                if STATES[f][0] <= 0:
                    end = (t, f)
        want = [STATES[f] for _, f in valid]
        if p["cb"] != "none":
            got = at_return
            tight = bool(valid) and valid[-1][0] >= t0 + LIMIT - 1e-6
            if got != want and not (tight and got == want[:-1]) and not cancelled:
                raise Violation(f"callback got {got}, the device reported {want}", "callback states")
            if cancelled and got != want[:len(got)]:
                raise Violation(f"callback got {got}, the device reported {want}", "callback states")
        # -- spacing of the polls
        prev_t, hold, slack = t0, 0.0, 0.0
        for t, f, _ in d.polls:
            if t - prev_t < hold - 1e-6:
                raise Violation(f"polled {t - prev_t:.1f} s into flashing of {hold} s", "poll during flashing")
            if t - prev_t > hold + 10 + slack:
                raise Violation(f"no poll for {t - prev_t:.1f} s", "polling stalls")
            prev_t = t
            hold = STATES[f][2] if f in STATES and STATES[f][0] == 3 else 0.0
            slack = HANG if f == "hang" else 0.0
        # -- the end
        if cancelled:
            pass
        elif end is not None and end[0] < t0 + LIMIT - 3:
            if err is not None:
                raise Violation(f"device reported {end[1]} but update() raised {err!r}", "raised")
            if t1 > end[0] + 5:
                raise Violation(f"update() returned {t1 - end[0]:.0f} s after the final state", "late return")
            res = task.result()
            if res.get("status") != STATES[end[1]][0]:
                raise Violation(f"update() returned {res} after {end[1]}", "result")
        elif end is None:
            if err is None:
                raise Violation(f"update() returned {task.result()} although the device never finished", "early success")
            if not isinstance(err, TimeoutError):
                raise Violation(f"update() raised {err!r} although the device may still finish", "early failure")
            if not LIMIT - 2 <= t1 - t0 <= LIMIT + 2 * HANG + 2:
                raise Violation(f"update() gave up after {t1 - t0:.0f} s", "time limit")
        # -- silence afterwards
        await asyncio.sleep(900)
        if len(d.times) > nreq:
            raise Violation(f"requests after the end: {d.times[nreq:]}", "requests after end")
        if calls != at_return and not cancelled:
            raise Violation(f"callback after the end: {calls[len(at_return):]}", "callback after end")
    return main


FULL = {"type": 2, "fw_ver": "9.9.9 Build 1", "release_date": "2024-02-29", "release_note": "some", "need_to_upgrade": True,
        "fw_size": 5, "hw_id": "", "oem_id": "o"}
NONE = {**FULL, "type": 0, "fw_ver": "1.0.0 Build 0", "release_date": "", "need_to_upgrade": False, "release_note": ""}
CHECKS = {
    "full": FULL, "type1": {**FULL, "type": 1}, "type3": {**FULL, "type": 3, "fw_ver": "8.8"}, "none": NONE,
    "nosize": {k: v for k, v in FULL.items() if k != "fw_size"},
    "nodate": {k: v for k, v in FULL.items() if k != "release_date"},
    "nover": {k: v for k, v in NONE.items() if k != "fw_ver"},
    "bare": {"type": 0, "need_to_upgrade": False},
    "nulldate": {**FULL, "release_date": None},
    "baddate": {**FULL, "release_date": "soon"},
    "malformed": "malformed", "error": "error", "drop": "drop", "hang": "hang", "auth": "auth",
}


def avail(ctx, p):
    async def main(loop):
        import datetime
        from kasa.module import Module
        d = Dev({**p, "depth": 0, "tail": "idle", "first": None, "start": "ok"}, ctx, loop)
        d.cloud = p["cloud"]
        await d.dev.update()
        fw = d.dev.modules[Module.Firmware]
        if p["cloud"] == "error":
            # recorded as failing; may be asked again later
            if d.dev.is_cloud_connected:
                raise Violation("connected although the cloud state is unknown", "cloud")
        elif d.dev.is_cloud_connected is not (p["cloud"] == 0):
            raise Violation(f"cloud status {p['cloud']} shown as {d.dev.is_cloud_connected}", "cloud")

        def view():
            f = d.dev.features
            v = (fw.update_available, fw.latest_firmware, fw.current_firmware)
            if (f["update_available"].value, f["available_firmware_version"].value, f["current_firmware_version"].value) != v:
                raise Violation("features differ from the module", "features")
            return v
        cur = d.s.sys["fw_ver"]
        if view() != (None, None, cur) or fw.firmware_update_info is not None:
            raise Violation(f"{view()} before any check", "unchecked")
        for _ in range(p["n"]):
            name = ctx.pick(CHECKS, "check")
            a = d.latest = CHECKS[name]
            how = ctx.pick(("call", "feature") if name in ("full", "none", "error") else ("call",), "how")
            if how == "feature":
                await d.dev.features["check_latest_firmware"].set_value(None)
            else:
                res = await fw.check_latest_firmware()
                if (res is None) != (fw.firmware_update_info is None):
                    raise Violation(f"check returned {res}, kept {fw.firmware_update_info}", "result")
            if isinstance(a, str):
                want = {(None, None, cur)}
            else:
                known = (a["type"] != 0) if p["cloud"] == 0 else None
                want = {(known, a.get("fw_ver"), cur)}
                if name == "baddate":
                    want.add((None, None, cur))
            if view() not in want:
                raise Violation(f"after check {name}: {view()}, expected {want}", "reported")
            info = fw.firmware_update_info
            if info is not None and name != "baddate":
                rd = a.get("release_date")
                if info.release_date != (datetime.date.fromisoformat(rd) if rd else None):
                    raise Violation(f"release date {info.release_date} for {rd}", "release date")
                if info.needs_upgrade is not a["need_to_upgrade"] or (info.release_notes or "") != a.get("release_note", ""):
                    raise Violation(f"{info} for {a}", "details")
            if ctx.pick((False, True), "flash"):
                # another app updates the device
                cur = d.s.sys["fw_ver"] = "7.7.7 Build 9"
                await asyncio.sleep(10)
                await d.dev.update()
                if view()[2] != cur:
                    raise Violation(f"current firmware {view()[2]} after update to {cur}", "current")
    return main


def refused(ctx, p):
    async def main(loop):
        from kasa import KasaException
        from kasa.module import Module
        d = Dev({**p, "depth": 0, "tail": "idle", "first": None, "start": "ok"}, ctx, loop)
        why = ctx.pick(("unchecked", "none", "cloud", "clouderr", "failed", "failed2", "cloudlater", "gone"), "why")
        d.cloud = {"cloud": 1, "clouderr": "error"}.get(why, 0)
        await d.dev.update()
        fw = d.dev.modules[Module.Firmware]
        if why != "unchecked":
            d.latest = {"none": NONE, "failed": "error"}.get(why, FULL)
            await fw.check_latest_firmware()
        if why == "failed2":
            d.latest = "hang"
            await fw.check_latest_firmware()
        if why == "gone":
            d.latest = NONE
            await fw.check_latest_firmware()
        if why == "cloudlater":
            d.cloud = 2
            await asyncio.sleep(200)
            await d.dev.update()
        n = len(d.times)
        calls = []

        async def cb(state):
            calls.append(state)
        try:
            await asyncio.wait_for(fw.update(cb), 900)
        except KasaException:
            pass
        else:
            raise Violation(f"update() succeeded ({why})", "not refused")
        await asyncio.sleep(600)
        if len(d.times) > n or calls or d.downloads:
            raise Violation(f"requests although refused ({why}): {d.times[n:]}", "sent though refused")
    return main
