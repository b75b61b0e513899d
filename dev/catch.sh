#!/bin/bash
# Development helper: runs the quick check of each seed's property on a patched copy of /repo.
# usage: catch.sh [ID...]   (all when none is given)
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/catch.XXXXXX)
  git clone -q /repo $w/r && git -C $w/r apply /verif/seeded/$id/patch.diff || echo "$id: patch failed"
  s=$(date +%s)
  VERIF_REPO=$w/r VERIF_TIER=quick timeout 900 ./run.sh $p > $w/out 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION $w/out)"
  [ $rc = 1 ] || tail -5 $w/out
  rm -rf "$w"
done
