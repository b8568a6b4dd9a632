#!/bin/bash
# tools/trybug.sh ID...: apply each seeded change to /repo, run its property's quick check, undo it.
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  t0=$(date +%s)
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 /verif/run.py ${CHECK:-$p} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id ${CHECK:-$p} rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep VIOLATION | head -1 | cut -c1-160)"
done
