#!/bin/bash
# build /repo and compare its test results with the baseline
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
m=set(b['stable'])-set(o['passed'])
print("stable", len(b['stable']), "missing", sorted(m)[:10]); raise SystemExit(1 if m else 0)
P
