#!/bin/bash
# developer's helper: applies each planted bug to /repo, runs the quick check of its property, undoes it. Never run while vcheck runs.
cd "$(dirname "$0")/.."
for d in ${@:-seeded/*/}; do
  n=$(basename $d); d=seeded/$n; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$n: patch does not apply"; continue; }
  s=$(date +%s); out=$(VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$n $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION)"
done
