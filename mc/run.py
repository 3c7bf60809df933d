"""Run one check: python -m mc.run C01 [--tier quick|thorough] [--replay FILE]."""

from __future__ import annotations

import argparse
import gc
import importlib
import json
import logging
import multiprocessing as mp
import os
import pathlib
import sys
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))

from mc import core  # noqa: E402


def load(prop):
    mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    if hasattr(mod, "prepare"):
        mod.prepare()
    return mod


_MOD = None
_SCN = None


def known_findings(prop):
    kf = ROOT / "known_findings.json"
    if not kf.exists():
        return []
    return [k for k in json.loads(kf.read_text()) if k.get("property") == prop and k.get("status") == "known"]


_KNOWN = frozenset()


def _init(prop, tier):
    global _MOD, _SCN, _KNOWN
    _KNOWN = frozenset(k["signature"] for k in known_findings(prop))
    core.install()
    logging.disable(logging.CRITICAL)
    _MOD = load(prop)
    if getattr(_MOD, "NEEDS_LOGGING", False):
        logging.disable(logging.NOTSET)
    _SCN = _MOD.scenarios(tier)
    gc.freeze()


def _work(job):
    idx, prefixes, slice_s, seed = job
    try:
        st, left = core.explore_chunk(_MOD.run, _SCN[idx], prefixes, slice_s, seed, known=_KNOWN)
        return idx, st, left, None
    except core.HarnessError as ex:
        return idx, core.Stats(), [], f"HarnessError {ex}"
    except BaseException:  # noqa: BLE001
        return idx, core.Stats(), [], traceback.format_exc()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("--only", help="substring filter on scenario repr (debugging)")
    ap.add_argument("--max-wall", type=float, default=None)
    a = ap.parse_args()
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"

    if a.replay:
        core.install()
        mod = load(prop)
        r = json.loads(pathlib.Path(a.replay).read_text())
        ctx, outcome, viol = core.execute(mod.run, r["params"], tuple(r["choices"]), r["params"].get("budget", 0))
        for x in ctx.log:
            print("  ", *x)
        print("outcome:", outcome)
        if viol:
            print(viol.msg)
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 0

    t0 = core.REAL_MONO()
    wall_cap = a.max_wall or (720.0 if tier == "quick" else 6 * 3600.0)
    core.install()
    logging.disable(logging.CRITICAL)
    try:
        mod = load(prop)
        scn = mod.scenarios(tier)
    except Exception:  # noqa: BLE001
        # the library can no longer be loaded or set up: report it as a violation
        traceback.print_exc()
        out = ROOT / "out" / prop
        out.mkdir(parents=True, exist_ok=True)
        f = out / "load.json"
        f.write_text(json.dumps(dict(params={}, choices=[], message=traceback.format_exc())))
        print(f"VIOLATION property={prop} replay={f}")
        return 1
    total = core.Stats()
    errors = []
    todo = [i for i in range(len(scn)) if not a.only or a.only in repr(scn[i])]
    pending = [(i, [()]) for i in todo]
    per_scn = {i: 0 for i in todo}
    truncated = False
    stop = False
    mpc = mp.get_context("fork")
    with mpc.Pool(a.jobs, _init, (prop, tier)) as pool:
        active = []
        pending.reverse()
        while pending or active:
            if core.REAL_MONO() - t0 > wall_cap and not stop:
                truncated = bool(pending) or truncated
                stop = True
                pending = []
            while pending and len(active) < a.jobs * 3:
                idx, pre = pending.pop()
                active.append(pool.apply_async(_work, ((idx, pre, 1.0, seed),)))
            nxt = []
            progressed = False
            for r in active:
                if not r.ready():
                    nxt.append(r)
                    continue
                progressed = True
                idx, st, left, err = r.get()
                total.merge(st)
                per_scn[idx] += st.executions
                if err:
                    errors.append((idx, err))
                if st.violations and len(total.violations) >= 12:
                    stop = True
                    pending = []
                if left and not stop:
                    k = max(1, min(len(left), a.jobs))
                    for j in range(k):
                        part = left[j::k]
                        if part:
                            pending.append((idx, part))
                elif left and stop:
                    truncated = True
            active = nxt
            if not progressed and active:
                active[0].wait(0.05)
        pool.terminate()

    known = known_findings(prop)
    fresh, seen_known = list(total.violations), {}
    for k in known:
        if k["signature"] in total.known:
            seen_known[k["signature"]] = k
    # findings are also established by the check's own probes
    for k in getattr(mod, "known_probes", lambda: [])():
        hit = next((x for x in known if x["signature"] == k), None)
        if hit:
            seen_known[k] = hit

    for idx, err in errors[:3]:
        fresh.append(dict(params=scn[idx], choices=[], message="check aborted: " + err, sig="abort", log=[], reproduced=True))

    wall = core.REAL_MONO() - t0
    cov = dict(
        states=len(total.states), transitions=total.transitions,
        traces_validated_against_impl=total.executions,
        executions=total.executions, scenarios=len(todo),
        distinct_outcomes=len(total.outcomes),
        top_outcomes=[f"{n} x {o}" for o, n in total.outcomes.most_common(12)],
        counters={k: v for k, v in sorted(total.counters.items())},
        replay_determinism=dict(replayed=total.replayed, diverged=total.nondet),
        bounds=getattr(mod, "BOUNDS", {}).get(tier, ""),
        exhaustive=not truncated and not stop,
        samples=total.samples[:6],
        validation=getattr(mod, "VALIDATION", "every explored trace is an execution of the real code; the oracle is an independent reference model run in lock step"),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"), coverage=cov,
              assumptions=([mod.ASSUMPTIONS] if isinstance(getattr(mod, "ASSUMPTIONS", []), str) else list(getattr(mod, "ASSUMPTIONS", []))), wall_s=round(wall, 2), violations=len(fresh))
    if total.known:
        cov["known_findings_met"] = dict(total.known)
    if ev["level"] in ("exploration", "fault_enumeration"):
        cov["evaluations"] = total.executions
        cov["distinct_nontrivial"] = len(total.outcomes)
        cov["rule"] = getattr(mod, "RULE", "")
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{prop} {tier}: {total.executions} executions, {len(total.states)} states, {total.transitions} transitions, "
          f"{len(todo)} scenarios, {len(total.outcomes)} outcomes, {wall:.1f}s"
          + ("" if cov["exhaustive"] else " (NOT exhausted)")
          + (f" nondeterministic replays: {total.nondet}" if total.nondet else ""))
    for sig, k in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if fresh:
        out = ROOT / "out" / prop
        out.mkdir(parents=True, exist_ok=True)
        sigs = set()
        for v in fresh:
            if v["sig"] in sigs:
                continue
            sigs.add(v["sig"])
            f = out / f"violation-{len(sigs)}.json"
            f.write_text(json.dumps(v, indent=1, default=str))
            print("----", v["sig"])
            print(v["message"][:3000])
            print("   params:", repr(v["params"])[:600])
            print("   choices:", v["choices"])
            for x in v["log"][-25:]:
                print("     ", x[:300])
            print(f"VIOLATION property={prop} replay={f}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
