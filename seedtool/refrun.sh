#!/bin/bash
# Development: refrun.sh name [props...]: apply a behaviour-preserving change, run the quick checks, undo.
cd /verif; n=$1; shift
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick
git -C /repo apply /verif/seedtool/refactors/$n.diff || exit 3
for p in "${@:-$(printf 'C%02d ' $(seq 1 20))}"; do for q in $p; do
  t0=$(date +%s); timeout 900 python3 check.py $q >/tmp/w/ref-$n-$q.log 2>&1; rc=$?
  echo "$n $q rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 -E '^(VIOLATION|INCONC)' /tmp/w/ref-$n-$q.log | cut -c1-300)"
done; done
git -C /repo checkout -q -- .
