#!/usr/bin/env python3
"""mut.py FILE [--tests] [ids...]: apply each mutant of FILE (a python file with a list M of
(id, "C01 C02", [(path, old, new), ...])) in a scratch copy and run the named checks (and the test suite)."""
import os, pathlib, shutil, subprocess, sys, time
ROOT = pathlib.Path(__file__).resolve().parent.parent
args = sys.argv[1:]
tests = "--tests" in args
args = [a for a in args if not a.startswith("--")]
ns = {}
exec(pathlib.Path(args[0]).read_text(), ns)
env = dict(os.environ, PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", HOME="/root")
for id, props, edits in ns["M"]:
    if args[1:] and not any(id.startswith(a) for a in args[1:]):
        continue
    w = pathlib.Path("/tmp/w/mut") / id
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(os.environ.get("MUT_BASE", "/repo"), w, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    for path, a, b in edits:
        p = w / path
        s = p.read_text()
        if s.count(a) != 1:
            print(id, "BAD EDIT", path, s.count(a), a[:60], flush=True); break
        p.write_text(s.replace(a, b))
    else:
        out = []
        for prop in props.split():
            t0 = time.time()
            c = subprocess.run(["bash", str(ROOT / "check.sh"), prop, "quick"], cwd=ROOT, env=dict(os.environ, KASA_REPO=str(w)), capture_output=True, text=True)
            sig = [l[:90] for l in c.stdout.splitlines() if l.startswith("----")]
            caught = c.returncode == 1 and "VIOLATION property=" + prop in c.stdout
            out.append(f"{prop}={'CAUGHT' if caught else 'MISSED' if c.returncode == 0 else 'RC%d' % c.returncode} {time.time()-t0:.0f}s {sig[:1]}")
            if caught:
                break
        if tests:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "8", "-p", "no:cacheprovider", "-p", "no:sugar", "--timeout=60", "-x"], cwd=w, env=dict(env, PYTHONPATH=str(w)), capture_output=True, text=True)
            out.append("tests: " + t.stdout.strip().splitlines()[-1])
        print(id, " | ".join(out), flush=True)
    shutil.rmtree(w, ignore_errors=True)
