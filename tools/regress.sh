#!/bin/bash
# run the repo test suite, print summary vs. baseline
bash /opt/vp/test.sh /tmp/w/o.json 2>/dev/null | tail -2
python3 - <<'P'
import json
o=json.load(open('/tmp/w/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
bad=[t for t in b['stable'] if t not in set(o['passed'])]
print('baseline tests not passing:', len(bad), bad[:20])
P
