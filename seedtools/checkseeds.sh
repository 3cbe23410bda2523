#!/bin/bash
# checkseeds.sh NAME...: which of the named seeds the check of their property reports
cd /verif
for n in "$@"; do
  s=/verif/seeded/$n
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  git -C /repo apply $s/patch.diff || continue
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  t0=$(date +%s)
  c=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 bin/check.py $p 2>&1); r=$?
  git -C /repo checkout -- .
  echo "== $n [$p] exit $r, $(( $(date +%s) - t0 )) s"; echo "$c" | grep -E "VIOLATION|UNDECIDED|ERROR|FAILED" | head -4
done
