#!/bin/bash
# runseeds.sh [ID...]: applies each planted bug to /repo, runs its property's
# check, undoes it. Prints rc (1 = caught).
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  timeout 900 python3 check.py $p > /tmp/seed/run_$d.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(grep -m1 VIOLATION /tmp/seed/run_$d.log | cut -c1-150)"
done
