#!/bin/bash
# hunt.sh [ID...]: applies each planted change in turn, runs the check of its property, undoes it.
cd "$(dirname "$0")/.."
ids=("$@"); [ $# = 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i does not apply"; continue; }
  s=$(date +%s)
  out=$(bash bin/check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-200)"
done
