#!/bin/bash
# detect.sh SEED [CHECK ...]: apply a planted change to /repo, run the quick checks named (default: its property's), undo it.
cd /verif; s="$1"; shift
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
git -C /repo apply "/verif/seeded/$s/patch.diff" || exit 2
for c in ${@:-$p}; do
  a=$(date +%s); out=$(bash check.sh $c quick 2>&1); rc=$?
  echo "$s $c rc=$rc $(( $(date +%s)-a ))s $(echo "$out" | grep -m1 VIOLATION)"
done
git -C /repo checkout -q -- .
