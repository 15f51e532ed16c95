#!/bin/bash
# Development: run.sh [-a] ids... : apply each planted bug to /repo, run its property's quick check, undo.
cd /verif
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id APPLY"; continue; }
  t0=$(date +%s)
  timeout 900 python3 check.py "$p" >/tmp/w/run-$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 '^VIOLATION' /tmp/w/run-$id.log)"
done
