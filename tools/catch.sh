#!/bin/bash
# Development tool: applies each planted bug to /repo, runs its property's check,
# and undoes it.  usage: tools/catch.sh [id ...]
cd /verif
ids=${@:-$(ls seeded)}
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  out=$(timeout 900 bash run.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p exit=$rc $(echo "$out" | grep -m1 VIOLATION)"
done
git -C /repo status --short
