#!/bin/bash
# Builds the harness against /repo's current working tree, hooks on. Output goes to /verif/target (ignored by git).
here="$(cd "$(dirname "$0")" && pwd)" || exit 2
. /opt/vp/env.sh
cd "$here" || exit 2
export RUSTFLAGS="--cfg verif_hooks" CARGO_TARGET_DIR="$here/target" CARGO_INCREMENTAL=0
exec cargo build --release --offline --locked --manifest-path harness/Cargo.toml "$@"
