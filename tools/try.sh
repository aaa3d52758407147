#!/bin/bash
# try.sh [ids...]: runs each planted bug's check against it (by hand)
for d in ${@:-$(ls /verif/seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
  out=$(cd /verif; VERIF_SEED=${SEED:-1} ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(echo "$out" | grep -c VIOLATION) | $(echo "$out" | grep 'clause' | head -1 | cut -c1-150) | $(echo "$out" | tail -1)"
done
