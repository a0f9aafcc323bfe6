#!/bin/bash
# tryseeds.sh [ID-prefix]: apply each seeded bug to /repo, run its property's quick check, undo.
cd /verif
for d in seeded/${1}*/; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/${d}patch.diff || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s); out=$(timeout 900 python3-vt gov/check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep VIOLATION)"
done
