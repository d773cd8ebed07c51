#!/bin/bash
# hunt.sh NAME.. : runs the check of each planted bug's property (or $CHECK) against it; prints caught / missed
cd /verif
for n in "$@"; do
  p=${CHECK:-$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")}
  [ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 1; }
  git -C /repo apply /verif/seeded/$n/patch.diff || { echo "$n: does not apply"; continue; }
  VERIF_TIER=quick VERIF_SEED=1 bash check.sh $p > /tmp/hunt.$n 2>&1; rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" /tmp/hunt.$n; then echo "$n $p caught"; else echo "$n $p MISSED rc=$rc"; fi
done
bash build.sh >/dev/null 2>&1
