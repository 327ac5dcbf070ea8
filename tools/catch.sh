#!/bin/bash
# catch.sh <seed-id>...: run the check of its property with the planted bug applied
cd /verif
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: patch does not apply"; continue; }
  t=$(date +%s); bash check.sh $p quick > /tmp/catch.$s.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(( $(date +%s)-t ))s $(grep VIOLATION /tmp/catch.$s.out | cut -c1-300) :: $(grep -B1 -h '^ *VIOLATION' /tmp/catch.$s.out | head -1 | cut -c1-160)"
done
