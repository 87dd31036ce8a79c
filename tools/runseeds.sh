#!/bin/bash
# runseeds.sh [ID...]: run the check of its property against each planted bug (in /repo, undone after)
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  t=$(date +%s)
  VERIF_SEED=${SEED:-1} python3 check.py $p --quick > /tmp/seed_$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-t ))s $(grep -c VIOLATION /tmp/seed_$id.log)"
done
