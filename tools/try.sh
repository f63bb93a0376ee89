#!/bin/bash
# try.sh SEED [PROPERTY...]: runs checks against a planted bug (/repo is restored).
cd "$(dirname "$0")/.." || exit 2
s=seeded/$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
git -C /repo apply "$PWD/$s/patch.diff" || exit 2
for p in $props; do
  out=$(python3 check.py "$p" 2>&1); rc=$?
  echo "$(basename $s) $p rc=$rc $(echo "$out" | grep -m1 -E 'VIOLATION|Error' | cut -c1-200)"
done
git -C /repo checkout -q -- .
