#!/bin/bash
# runseeds.sh [pattern]: applies each planted bug to /repo, runs its property's check, undoes it
for d in /verif/seeded/*${1}*/; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 sa/run.py ${2:-$p} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') violations; $(echo "$out" | tail -1 | cut -c1-150)"
done
