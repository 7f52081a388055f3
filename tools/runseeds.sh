#!/bin/bash
# runs the check of each planted change's property against it: runseeds.sh [id...]
cd /verif/seeded
for s in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: patch does not apply"; continue; }
  t0=$(date +%s); out=$(bash /verif/check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(( $(date +%s)-t0 ))s | $(echo "$out" | grep -A3 -m1 VIOLATION | tr '\n' ' ' | cut -c1-420)"
  [ $rc = 0 ] && echo "$out" | grep INCONCL | head -3 | cut -c1-300
done
