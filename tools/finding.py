"""finding.py PROP fixed|known SIGNATURE WHAT: add an entry to known_findings.json."""
import json, sys, pathlib
f = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
d = json.loads(f.read_text())
prop, status, sig, what = sys.argv[1:5]
if status == "fixed":
    sig, what = "", f"fixed: property={prop} {what}"
d.append(dict(property=prop, status=status, signature=sig, what=what))
f.write_text(json.dumps(d, indent=1) + "\n")
