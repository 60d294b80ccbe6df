#!/bin/bash
# Builds every monitor once, so that the checks only rebuild what changed.
cd "$(dirname "$0")/.." || exit 2
. tools/env.sh
mkdir -p evidence
python3 tools/mkws.py || exit 2
cd harness && cargo build --offline --bins
