#!/bin/bash
# tryseed.sh ID...: run the check of each planted bug's property against it (in /repo, undone afterwards)
V=$(cd "$(dirname "$0")/.." && pwd)
for id in ${*:-$(ls $V/seeded)}; do
  p=$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  git -C /repo apply $V/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s); python3 $V/run.py $p quick > /tmp/try-$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 violated /tmp/try-$id.log | cut -c1-150) $(grep -m1 ERROR /tmp/try-$id.log | cut -c1-200)"
done
