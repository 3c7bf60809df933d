#!/usr/bin/env python3
"""Try seeded changes in scratch copies: demo on clean, demo on patched, test suite, own check.

usage: seedtest.py [--no-tests] [--tier T] ID...
"""
import json, os, pathlib, shutil, subprocess, sys, time
ROOT = pathlib.Path(__file__).resolve().parent.parent
args = sys.argv[1:]
tests = "--no-tests" not in args
nocheck = "--no-check" in args
ids = [a for a in args if not a.startswith("--")] or sorted(p.name for p in (ROOT / "seeded").iterdir())
W = pathlib.Path("/tmp/w"); W.mkdir(exist_ok=True)
env = dict(os.environ, PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", HOME="/root")
for i in ids:
    sd = ROOT / "seeded" / i
    meta = json.loads((sd / "meta.json").read_text())
    w = W / f"seed-{i}"
    if w.exists():
        shutil.rmtree(w)
    shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    e = dict(env, PYTHONPATH=str(w))
    r0 = subprocess.run(["bash", str(sd / "demo.sh")], cwd=w, env=e, capture_output=True, text=True, timeout=300)
    a = subprocess.run(["patch", "-p1", "-s", "-i", str(sd / "patch.diff")], cwd=w, capture_output=True, text=True)
    if a.returncode:
        print(i, "PATCH FAILS", a.stdout, a.stderr); shutil.rmtree(w); continue
    r1 = subprocess.run(["bash", str(sd / "demo.sh")], cwd=w, env=e, capture_output=True, text=True, timeout=300)
    res = f"{i} [{meta['property']}] demo clean={r0.returncode} patched={r1.returncode}"
    if r0.returncode:
        res += " !!" + r0.stdout[-300:] + r0.stderr[-500:]
    if not nocheck:
        t0 = time.time()
        c = subprocess.run(["bash", str(ROOT / "check.sh"), meta["property"], "quick"], cwd=ROOT, env=dict(os.environ, KASA_REPO=str(w)), capture_output=True, text=True)
        sig = [l for l in c.stdout.splitlines() if l.startswith("----")]
        res += f" check={'CAUGHT' if c.returncode == 1 and 'VIOLATION property=' + meta['property'] in c.stdout else 'MISSED rc=%d' % c.returncode} ({time.time()-t0:.0f}s) {sig[:2]}"
    if tests:
        junit = W / f"junit-{i}.xml"
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "8", "-p", "no:cacheprovider", "-p", "no:sugar", "--timeout=60", "-o", "junit_family=xunit2", f"--junitxml={junit}"], cwd=w, env=e, capture_output=True, text=True)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", str(W / "results.json"), f"junit:{junit}"], capture_output=True)
        got = json.loads((W / "results.json").read_text())
        passed = set(got.get("passed") or [])
        lost = sorted(set(json.loads(pathlib.Path("/opt/vp/BASELINE.json").read_text())["stable"]) - passed)
        res += f" tests: {len(passed)} passed, {len(lost)} stable ones lost {lost[:2]}"
    print(res, flush=True)
    shutil.rmtree(w)
