#!/bin/bash
# fix.sh PROP "commit message" "what failed" : test, commit, record
set -e
bash /verif/tools/rt.sh || { echo FAILED; exit 1; }
cd /repo && git commit -qam "fix: $2"
echo "fixed: property=$1 $(git rev-parse --short HEAD) $3" >> /verif/known_findings.txt
