#!/bin/bash
# usage: check.sh PROPERTY [--replay=family:seed | --family=F | --scale=X]
# Derives the workspace from /repo as it is now, rebuilds what changed, runs the monitors.
cd "$(dirname "$0")/.." || exit 2
export VMON_ROOT="$PWD"
prop="$1"; shift
bin=$(echo "$prop" | tr 'A-Z' 'a-z')
. tools/env.sh
python3 tools/mkws.py || exit 2
( cd harness && cargo build --offline -q --bin "$bin" ) || { echo "INCONCLUSIVE: build failed"; exit 2; }
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
