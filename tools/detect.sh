#!/bin/bash
# Developer tool: runs the check of each planted bug's property against it (detect.sh [ID...]; ALL=1 runs every check).
cd "$(dirname "$0")/.."
ids=${@:-$(ls seeded)}
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i: patch does not apply"; continue; }
  for c in ${ALL:+$(ls checks | grep -oE '^C[0-9]+')} ${ALL:-$p}; do
    [ "$c" = 1 ] && continue
    o=$(bash check.sh $c 2>&1); rc=$?
    [ -n "$ALL" ] && [ $rc = 0 ] && continue
    echo "$i $c rc=$rc $(echo "$o" | grep -m1 VIOLATION)"
    echo "$o" | grep -m2 -A1 -iE 'violated|FAIL|:[0-9]+' | head -3 | cut -c1-220
  done
  git -C /repo checkout -- .
done
