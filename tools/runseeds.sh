#!/bin/bash
# development tool: apply every planted bug to /repo, run the quick check of
# its property, undo it.  usage: runseeds.sh [ids...]
cd /verif
ids="${*:-$(ls seeded)}"
for s in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py $p quick > work/seed-$s.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  python3 tools/seedres.py $s $p $rc
  echo "$s $p rc=$rc $(grep -m1 VIOLATION work/seed-$s.log) $(python3 -c "
import json;e=json.load(open('evidence/$p.json'));print('')" 2>/dev/null)"
done
