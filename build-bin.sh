#!/bin/bash
# Builds the command line tool from /repo's current working tree. Output goes to /verif/target-bin (ignored by git).
here="$(cd "$(dirname "$0")" && pwd)" || exit 2
. /opt/vp/env.sh
cd "$here" || exit 2
export CARGO_TARGET_DIR="$here/target-bin" CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0
exec cargo build -p cordy --offline --locked --manifest-path /repo/Cargo.toml "$@"
