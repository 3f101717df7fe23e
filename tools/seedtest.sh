#!/bin/bash
# run the checks of seeded bugs: tools/seedtest.sh [id...]
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  s=$(date +%s); out=$(timeout 900 python3-vt check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d: $p exit $rc $(( $(date +%s) - s ))s $(echo "$out" | grep VIOLATION | head -2 | cut -c1-150)"
done
