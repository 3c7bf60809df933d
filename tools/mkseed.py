"""Helper: mk(id, path, [(old, new)...], demo source, meta) writes seeded/<id> from /tmp/w/repo (a clean copy of /repo)."""
import json, pathlib, subprocess
REPO = pathlib.Path("/tmp/w/repo")


def mk(id, edits, demo, prop, needs, breaks):
    sd = pathlib.Path("/verif/seeded") / id
    sd.mkdir(parents=True, exist_ok=True)
    old = {}
    for path, a, b in edits:
        p = REPO / path
        s = p.read_text()
        old.setdefault(path, s)
        assert s.count(a) == 1, (id, path, s.count(a), a)
        p.write_text(s.replace(a, b))
    d = subprocess.run(["git", "diff", "--no-color"], cwd=REPO, capture_output=True, text=True).stdout
    for path, s in old.items():
        (REPO / path).write_text(s)
    assert d
    (sd / "patch.diff").write_text(d)
    (sd / "demo.py").write_text(demo)
    (sd / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nPYTHONPATH=$PWD exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    (sd / "meta.json").write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + "\n")
