#!/bin/bash
# seedrun.sh ID... : run the property's check on each planted change (applied to /repo, undone afterwards)
cd /verif || exit 1
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py "$p" > "/tmp/seedrun_$id.txt" 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(grep -c no-failing-input-found /tmp/seedrun_$id.txt) nfi $(grep -m1 -E '^(unit|obligation)|C[0-9][0-9] quick' /tmp/seedrun_$id.txt | cut -c1-150) | $(grep -m1 VIOLATION -B1 /tmp/seedrun_$id.txt | head -1 | cut -c1-200)"
done
