"""C25: a device object shows its own device, whatever else the process does."""

from __future__ import annotations

import asyncio
import itertools
import os
import pickle
import re
import traceback

from mc import core
from mc.core import Violation

core.install_datetime()

import kasa.cli.device  # noqa: E402, F401  (imported once, before any fork)
import kasa.iot  # noqa: E402, F401
import kasa.smart  # noqa: E402, F401
import kasa.smartcam  # noqa: E402, F401
from mc.checks import c17  # noqa: E402  (builders only)

BOUNDS = {
    "quick": "every recorded device (and its children) as A next to a second device B (the same model reporting other numbers; a different model of the same protocol): every interleaving of A: update, use, update and B: update, use, update, where use sets every settable feature, runs every action, effect, preset and custom effect; every execution in a fresh process; a long-lived object against a new one after the device was changed through another object",
    "thorough": "A: update, use, update, use, update against B: update, use, update; four different models as B",
}
ASSUMPTIONS = "the advertised range and choices of a feature are fixed when it is first read; modules with a polling interval are compared after it has passed"


# ---------------------------------------------------------------- one pristine process per execution
def pristine(fn):
    """Run fn() in a fork, so that process-wide state starts as imported."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = (True, fn())
            except BaseException:  # noqa: BLE001
                out = (False, traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise core.HarnessError("forked execution died")
    ok, res = pickle.loads(data)
    if not ok:
        raise core.HarnessError(res)
    return res


# ---------------------------------------------------------------- what a device object shows
def text(x):
    if isinstance(x, dict):
        return "{" + ", ".join(f"{k!r}: {text(v)}" for k, v in sorted(x.items(), key=repr)) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(text(v) for v in x) + "]"
    return re.sub(r" at 0x[0-9a-f]+", "", repr(x))


SKIP_DEV = {"features", "modules", "children", "config", "parent", "credentials", "emeter_today", "emeter_this_month",
            "emeter_realtime", "device_type_attributes"}


def props_of(obj):
    for n in dir(type(obj)):
        if n.startswith("_") or n in SKIP_DEV:
            continue
        if isinstance(getattr(type(obj), n, None), property):
            yield n


def read(fn):
    try:
        return text(fn())
    except Exception as ex:  # noqa: BLE001
        return f"<{type(ex).__name__}>"


def observe(dev, fresh=False):
    out = {}
    for n, d in enumerate([dev, *dev.children]):
        for p in props_of(d):
            out[n, "device", p] = read(lambda: getattr(d, p))
        for name, m in d.modules.items():
            for p in props_of(m):
                if p not in ("data", "disabled") or not fresh:
                    out[n, str(name), p] = read(lambda: getattr(m, p))
        for f in d.features.values():
            out[n, "feature", f.id] = read(lambda: f.value)
            if not fresh:
                out[n, "feature", f.id + " domain"] = read(lambda: (f.choices if f.type.name == "Choice" else (f.minimum_value, f.maximum_value)))
    return out


# ---------------------------------------------------------------- scripts
async def use(dev):
    """Exercise everything that can be set; what it returns is not judged here."""
    for d in [dev, *dev.children]:
        for f in list(d.features.values()):
            if f.attribute_setter is None or f.id in ("pair", "unpair", "check_latest_firmware"):
                continue
            if f.type.name == "Action":
                vals = [None]
            elif f.type.name in ("Switch", "Number", "Choice"):
                try:
                    vals = [v for v in c17.good_values(f, "quick") if v != f.value][:2]
                except Exception:  # noqa: BLE001
                    continue
            else:
                continue
            for v in vals:
                try:
                    await f.set_value(v)
                except Exception:  # noqa: BLE001, S110
                    pass
        for name, m in list(d.modules.items()):
            if str(name) == "LightEffect":
                for e in list(m.effect_list)[-3:]:
                    await quiet(lambda: m.set_effect(e))
                    await quiet(lambda: m.set_effect(e, brightness=33, transition=7))
                await quiet(lambda: m.set_effect("Off"))
            if hasattr(m, "preset_states_list"):
                from kasa import LightState
                await quiet(lambda: m.save_preset(m.preset_list[1], LightState(brightness=17)))
            if hasattr(m, "get_daily_stats"):
                await quiet(lambda: m.get_daily_stats())
                await quiet(lambda: m.get_monthly_stats())


async def quiet(fn):
    try:
        return await fn()
    except Exception:  # noqa: BLE001
        return None


def tweak(x):
    """Other numbers in the same places."""
    if isinstance(x, dict):
        return {k: v if k in ("ver_code", "sum", "start_index", "id", "child_num", "device_id", "dynamic_light_effect_enable") else tweak(v) for k, v in x.items()}
    if isinstance(x, list):
        return [tweak(v) for v in x]
    if isinstance(x, bool):
        return not x
    if isinstance(x, int) and x < 10**6:
        return x + 1
    return x


def change(kind, s):
    """The device reports other numbers from now on."""
    for x in ([s.sys] if kind == "iot" else [s.info, *(c.info for c in s.children.values())]):
        for k, v in list(x.items()):
            if isinstance(v, dict) and k not in c17.CHILD_LISTS:
                new = tweak(v)
                v.clear()
                v.update(new)
            elif kind == "iot" and k in ("rssi", "on_time", "led_off", "brightness"):
                x[k] = tweak(v)


def make(kind, fix, other=False):
    s, dev = c17.build(kind, fix)
    if other:
        change(kind, s)
    return s, dev


def execution(a, b, script):
    """Run the script ('A'/'B' letters); returns what A showed after each of its steps and what it was asked."""
    def go():
        async def main(loop):
            out = []
            sa, da = make(*a)
            db = None
            na = nb = 0
            if b and script[0] == "B":
                _, db = make(*b)
            for who in script:
                if who == "A":
                    await asyncio.sleep(90_000)
                    await (use(da) if na % 2 else quiet(da.update))
                    na += 1
                else:
                    if db is None:
                        _, db = make(*b)
                    await (use(db) if nb % 2 else quiet(db.update))
                    nb += 1
                out.append((na, observe(da) if na else {}))
            return out, [text(x) for x in sa.log]
        return core.run_loop(core.Ctx(), main)
    return pristine(go)


def diff(x, y):
    return next(((k, x.get(k, "missing"), y.get(k, "missing")) for k in sorted(set(x) | set(y), key=repr) if x.get(k) != y.get(k)), None)


_SOLO = {}


def solo(a, n):
    key = repr((a, n))
    if key not in _SOLO:
        _SOLO[key] = execution(a, None, "A" * n)
    return _SOLO[key]


def pair(ctx, p):
    a, b, na, nb = tuple(p["a"]), tuple(p["b"]), p["na"], p["nb"]
    scripts = sorted({"".join(s) for s in itertools.permutations("A" * na + "B" * nb)})
    script = ctx.pick(scripts, "interleaving")
    want_obs, want_log = solo(a, na)
    obs, log = execution(a, b, script)
    want = dict(want_obs)
    for n, (k, x) in enumerate(obs):
        if k and (d := diff(x, want[k])):
            (dev, where, what), got, want = d
            raise Violation(f"{script}: after step {n + 1}, {a[1]}: {what} of {where} (device {dev}) is {got[:300]}, without {b[1]} it is {want[:300]}",
                            f"influenced {where}.{what}")
    if log != want_log:
        k = next((i for i, (x, y) in enumerate(zip(log, want_log)) if x != y), min(len(log), len(want_log)))
        raise Violation(f"{script}: request {k} to {a[1]} is {log[k:k + 1]}, without {b[1]} it is {want_log[k:k + 1]}", "requests influenced")
    ctx.note(script, len(log))
    ctx.obs.append((len(obs), len(log)))


def fresh(ctx, p):
    """A long-lived object against a new one."""
    kind, fix = p["a"]

    def go():
        async def main(loop):
            s, da = make(kind, fix)

            def again():
                if kind == "iot":
                    return c17.iotsim.iot_device(s)
                return c17.sim.smart_device(s)
            db = again()
            await quiet(da.update)
            await quiet(db.update)
            if p["how"] == "used":
                await use(db)
            else:
                change(kind, s)
            await asyncio.sleep(90_000)
            await quiet(da.update)
            dc = again()
            try:
                await dc.update()
            except Exception:  # noqa: BLE001
                return {}, {}  # the changed data is nonsense to the library
            return observe(da, True), observe(dc, True)
        return core.run_loop(core.Ctx(), main)
    x, y = pristine(go)
    bad = [(k, x.get(k, "missing"), y.get(k, "missing")) for k in sorted(set(x) | set(y), key=repr) if x.get(k) != y.get(k)]
    for (dev, where, what), got, want in bad:
        if what in FRESH_SKIP:
            continue
        raise Violation(f"{fix}: {what} of {where} (device {dev}) is {got[:300]} for the old object, {want[:300]} for a new one", f"stale {where}.{what}")
    ctx.note("fresh", fix)
    ctx.obs.append((len(x),))


FRESH_SKIP = {"internal_state"}


def scenarios(tier):
    th = tier == "thorough"
    out = []
    by = {}
    for kind, fix in c17.kinds():
        by.setdefault(kind, []).append(fix)
    for kind, fixes in by.items():
        for n, fix in enumerate(fixes):
            out.append(dict(name="same", a=[kind, fix], b=[kind, fix, True], na=5 if th else 3, nb=3, budget=0))
            for k in (1, 7, 13, 29) if th else (1,):
                other = fixes[(n + k) % len(fixes)]
                if other != fix:
                    out.append(dict(name=f"other{k}", a=[kind, fix], b=[kind, other], na=5 if th else 3, nb=3, budget=0))
            for how in ("used", "changed"):
                out.append(dict(name="fresh", a=[kind, fix], how=how, budget=0))
    return out


def run(ctx, p):
    (fresh if p["name"] == "fresh" else pair)(ctx, p)
