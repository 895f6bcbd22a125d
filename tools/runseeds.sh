#!/bin/bash
# runseeds.sh [ID...]: applies each planted bug to /repo, runs its property's check, undoes it.
cd /verif
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for d in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  start=$SECONDS
  out=$(./check.sh $prop quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  v=$(grep -m1 VIOLATION <<<"$out" | cut -c1-160)
  echo "$d $prop rc=$rc $((SECONDS-start))s $v"
done
