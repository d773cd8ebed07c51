#!/bin/bash
# tri.sh PROP SEED CASES : failures, shortened
cd /verif; VERIF_SEED=$2 VERIF_CASES=$3 VERIF_ALL=1 timeout 900 ./target/release/vh run $1 > /tmp/tri.$1 2>&1
grep -v "^property" /tmp/tri.$1 | head -12 | cut -c1-200 | sed '/^signature/,$d'
grep "^signature" /tmp/tri.$1 | sort | uniq -c
grep ^signature -A400 /tmp/tri.$1 | sed '/^--- case/,/^--- failure/d' | cut -c1-180 | head -${4:-90}
