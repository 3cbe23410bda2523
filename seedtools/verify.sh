#!/bin/bash
# verify.sh NAME...: patch applies, touches original lines, builds, stable tests pass, demo 0 -> nonzero, and which checks catch it
cd /repo || exit 1
for n in "$@"; do
  s=/verif/seeded/$n
  git diff --quiet || { echo "repo dirty"; exit 1; }
  bash $s/demo.sh > /tmp/v.$n.d0 2>&1; r0=$?
  git apply $s/patch.diff || { echo "$n: does not apply"; continue; }
  bash /opt/vp/build.sh > /tmp/v.$n.b 2>&1; rb=$?
  bash /opt/vp/test.sh /tmp/v.$n.t.json > /tmp/v.$n.t 2>&1
  fails=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/v.$n.t.json'))
g=lambda d: set(d.get('passed') or d.get('stable') or d.get('tests') or [])
print(len(g(b)-g(t)), sorted(g(b)-g(t))[:3])
P
)
  bash $s/demo.sh > /tmp/v.$n.d1 2>&1; r1=$?
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  if [ -z "$NOCHECK" ]; then c=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 bin/check.py $p 2>&1 | grep -E "VIOLATION|UNDECIDED|ERROR|FAILED" | head -5); fi
  git checkout -- .
  echo "== $n [$p] demo0=$r0 build=$rb missing-tests=$fails demo1=$r1"; echo "$c"
done
