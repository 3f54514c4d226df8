#!/bin/bash
# try_bugs.sh [ID...]: applies each planted bug to /repo, runs the quick check of its property, undoes it. (not used by any check)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  s=$(date +%s)
  timeout 900 /opt/venv/bin/python check.py $p --tier quick > /tmp/try_$d.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/try_$d.out) $(grep -m1 -A1 VIOLATION /tmp/try_$d.out | tail -1 | cut -c1-150)"
done
