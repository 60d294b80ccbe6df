#!/bin/bash
# usage: seed_check.sh ID...   applies each planted bug, runs its property's quick check, undoes it
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git apply "$d/patch.diff" || continue
  (cd /verif && bash tools/check.sh $p > /tmp/seedc.$id 2>&1); r=$?
  git checkout -q -- .
  echo "$id ($p): rc=$r $(grep -m1 '^  \[' /tmp/seedc.$id | cut -c1-220)"
done
