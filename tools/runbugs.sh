#!/bin/bash
# Applies each planted bug to /repo in turn, runs the check of its property, undoes it. usage: runbugs.sh [id ...]
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V"
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
for d in ${@:-$(ls seeded)}; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$V/seeded/$d/patch.diff" || { echo "$d: patch does not apply"; continue; }
  T=$(date +%s)
  VERIF_SEED=${SEED:-1} ./check $P > /tmp/runbug.log 2>&1; rc=$?
  git -C /repo checkout -- .
  V1=$(grep -a "^VIOLATION property=$P " /tmp/runbug.log | head -1)
  if [ $rc = 1 ] && [ -n "$V1" ]; then echo "$d CAUGHT $(( $(date +%s)-T ))s $(grep -a -i 'violated\|what' /tmp/runbug.log | head -1 | cut -c1-140)"; else echo "$d MISSED rc=$rc $(tail -2 /tmp/runbug.log | tr '\n' ' ' | cut -c1-300)"; fi
done
