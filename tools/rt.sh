#!/bin/bash
# build and test /repo, compare with the baseline
bash /opt/vp/build.sh > /tmp/rt.build 2>&1 || { grep -E "^error" -A8 /tmp/rt.build | head -40; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json > /dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/rt.json'))
def passed(x):
    for k in ('passed','stable','stable_pass','pass'):
        if k in x: return set(x[k])
    return None
import sys
pb,po=passed(b),passed(o)
if pb is None or po is None: print(b.keys(),o.keys()); sys.exit()
m=pb-po
print('baseline',len(pb),'now',len(po),'missing',len(m)); print('\n'.join(sorted(m)[:20]))
sys.exit(1 if m else 0)
P
