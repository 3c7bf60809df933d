#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the table below."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT / "tools"))
from checks_table import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in (ROOT / "properties.jsonl").read_text().splitlines()]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        tech, note = CHECKS[p]
        m["checks"].append(dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
                                technique=tech, level="model_checking", level_note=note))
    else:
        m["not_applicable"].append(dict(property=p, reason=NOT_APPLICABLE.get(p, "check not built yet")))
(ROOT / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
