#!/bin/bash
# runseeds.sh [ID...]: apply each planted bug to /repo, run the check of its property, undo it
cd /verif || exit 2
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
  t0=$SECONDS
  ./check $p ${SEED:+--seed $SEED} > /tmp/plant/out.$d 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p exit=$rc $((SECONDS-t0))s $(grep -c '^VIOLATION' /tmp/plant/out.$d)"
done
