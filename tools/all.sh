#!/bin/bash
# all.sh [SEED]: every check once, one line each (development aid)
cd "$(dirname "$0")/.." || exit 2
for p in $(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  s=$(date +%s); out=$(VERIF_SEED=${1:-1} ./check.sh "$p" 2>&1); rc=$?
  echo "$p rc=$rc $(( $(date +%s) - s ))s $(tail -1 <<<"$out" | cut -c1-300)"
done
