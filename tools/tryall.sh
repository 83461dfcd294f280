#!/bin/bash
# apply each planted bug to /repo, run its property's quick check, undo. usage: tryall.sh [ids...]
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for b in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b APPLYFAIL"; continue; }
  t0=$(date +%s)
  VERIF_SEED=${SEED:-1} VERIF_TIER=quick python3 check.py $p > /tmp/try.$b.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$b $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -B1 VIOLATION /tmp/try.$b.log | head -1 | cut -c1-200)"
done
