#!/bin/bash
# Runs the checks against planted bugs (development tool): catch.sh [ID...]; applies each patch to /repo and undoes it.
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(./check $p quick 2>/tmp/s/catch.$id.err); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -a VIOLATION | head -3 | tr '\n' ' ')"
done
