#!/bin/bash
# Applies each seeded bug to /repo, runs its property's check, undoes it. By hand only.
cd /verif
for d in ${@:-seeded/*/}; do d=${d%/}; n=$(basename $d); d=seeded/$n
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$n: does not apply"; continue; }
  python3 check.py $p > /tmp/seed.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$n $p rc=$rc $(grep VIOLATION /tmp/seed.out) | $(tail -1 /tmp/seed.out | cut -c1-200)"
done
git -C /repo status --short
