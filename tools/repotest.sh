#!/bin/bash
# Rebuild /repo and check that all stable tests pass.
bash /opt/vp/build.sh >/tmp/vf-build.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/vf-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vf-test.json >/tmp/vf-test.log 2>&1
python3 - <<'P'
import json,sys
o=json.load(open('/tmp/vf-test.json'));b=json.load(open('/opt/vp/BASELINE.json'))
miss=[t for t in b['stable'] if t not in o['passed']]
print("stable passing:", len(b['stable'])-len(miss), "of", len(b['stable']), miss)
sys.exit(bool(miss))
P
