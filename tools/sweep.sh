#!/bin/bash
# sweep.sh [id...]: apply each planted bug to /repo, run the check of its property, undo it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: DOES NOT APPLY"; continue; }
  o=$(timeout 900 ./check.sh $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(echo "$o" | grep -c VIOLATION) | $(echo "$o" | head -1 | cut -c1-260)"
done
