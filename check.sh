#!/bin/bash
# check.sh PROPERTY [thorough] : rebuilds the harness against /repo and runs one check
cd "$(dirname "$0")" || exit 2
if [ -n "$2" ]; then export VERIF_TIER=$2; fi
log=$(mktemp)
build() { if ! bash "$1" >"$log" 2>&1; then tail -40 "$log"; rm -f "$log"; echo "BUILD FAILED"; exit 2; fi; }
build build.sh
case "$1" in C25|C26) build build-bin.sh ;; esac
rm -f "$log"
VERIF_ROOT="$PWD" exec target/release/vh run "$1"
