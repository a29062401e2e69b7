#!/bin/bash
# hunt.sh [BUG...]: applies each planted bug to /repo, runs the quick check of its property, and takes it back.
cd /verif || exit 1
for b in "${@:-$(ls seeded)}"; do for bug in $b; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$bug/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$bug/patch.diff" || { echo "$bug: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=${SEED:-1} bash ./check.sh "$p" --tier quick > /tmp/hunt.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$bug $p rc=$rc $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/hunt.out)"
done; done
git status --short | grep -v seeded
