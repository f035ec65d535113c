#!/bin/bash
# catch.sh [SEED...]: applies each planted bug to /repo, runs the check of its property, and undoes it.
cd "$(dirname "$0")/.."
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C "${REPO:-/repo}" apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  t=$(date +%s); out=$(bash check.sh "$p" quick 2>&1); rc=$?
  git -C "${REPO:-/repo}" checkout -- .
  echo "$s ($p): rc=$rc $(echo "$out" | grep -c "^VIOLATION property=$p") $(( $(date +%s) - t ))s $([ $rc = 1 ] || echo "MISSED: $(echo "$out" | tail -1)")"
done
