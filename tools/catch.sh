#!/bin/bash
# catch.sh [ID...]: applies each planted bug to /repo in turn and runs the check of its property (development aid)
cd "$(dirname "$0")/.." || exit 2
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check.sh "$p" 2>/tmp/catch.err); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION <<<"$out" || tail -1 <<<"$out")"
done
