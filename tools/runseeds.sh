#!/bin/bash
# runseeds.sh [ID...]: applies each planted bug to /repo in turn, runs the check of its property, undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -m1 '^VIOLATION' | grep -o no-failing-input-found) | $(echo "$out" | grep -B1 -m1 '^VIOLATION' | head -1 | cut -c1-140)"
done
