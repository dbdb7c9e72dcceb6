#!/bin/bash
# runseeds.sh [ID...]: run each planted bug's check against a scratch copy of /repo with the bug
cd "$(dirname "$0")/.."
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  w=$(mktemp -d /tmp/seedrun_XXXXXX)
  git clone -q /repo $w/repo && git -C $w/repo apply $PWD/seeded/$i/patch.diff || { echo "$i APPLY"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  TRACER_REPO=$w/repo python3-vt check.py $p --tier quick > $w/out 2>&1; rc=$?
  echo "$i $p rc=$rc $(grep -A1 -m1 VIOLATION $w/out | tail -1 | cut -c1-150)"
  [ $rc = 1 ] || grep -v "^OK" $w/out | head -5 | cut -c1-200
  rm -rf "$w"
done
