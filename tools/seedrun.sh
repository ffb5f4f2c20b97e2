#!/bin/bash
# usage: seedrun.sh [id...]: runs the check of each planted bug's property on a copy of /repo with the bug  (SEEDBASE: another copy)
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=/tmp/seedrun.$$; rm -rf $w; cp -a ${SEEDBASE:-/repo} $w
  git -C $w apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  s=$(date +%s)
  VERIF_REPO=$w timeout 900 ./check --property $p --tier quick > /tmp/seedrun.$id.log 2>&1; rc=$?
  rm -rf $w
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/seedrun.$id.log)"
done
