#!/bin/bash
# Applies each planted bug to /repo in turn and runs its property's check. usage: runseeds.sh [id ...]
cd /verif/seeded
for i in ${*:-$(ls)}; do
  p=$(python3 -c "import json;print(json.load(open('$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  s=$(date +%s)
  out=$(/verif/check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION)"
done
