#!/bin/bash
# usage: seed_try.sh ID...   confirms planted bugs: in a clean tree the demo passes; with the patch the
# tree builds, the stable tests pass and the demo fails.  Works in /repo itself and undoes the patch.
cd /repo || exit 2
export DEMO_TARGET=/tmp/demo_target
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  cp /verif/tools/demo_kit/kit.rs /verif/tools/demo_kit/demo.sh "$d/"
  bash "$d/demo.sh" > /tmp/seed.$id.clean 2>&1; c=$?
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh > /tmp/seed.$id.build 2>&1; b=$?
  t=skipped
  if [ $b = 0 ] && [ -z "${NOTEST:-}" ]; then
    bash /opt/vp/test.sh /tmp/seed.$id.json > /tmp/seed.$id.test 2>&1
    t=$(python3 - "$id" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open(f'/tmp/seed.{sys.argv[1]}.json'))
miss=[x for x in b if x not in set(r['passed'])]
print('pass' if not miss else f'{len(miss)} stable tests fail: {miss[:4]}')
P
)
  fi
  bash "$d/demo.sh" > /tmp/seed.$id.bug 2>&1; x=$?
  git checkout -q -- .
  echo "$id: clean demo rc=$c, build rc=$b, tests: $t, demo with patch rc=$x: $(tail -1 /tmp/seed.$id.bug | cut -c1-200)"
done
