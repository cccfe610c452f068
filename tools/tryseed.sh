#!/bin/bash
# developer: ./tryseed.sh ID... : the seed counts (builds, tests, demo) and is caught
for s in "$@"; do
  d=/verif/seeded/$s; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "dirty /repo"; exit 1; }
  (cd /repo && bash $d/demo.sh >/tmp/ts.clean 2>&1); c=$?
  git -C /repo apply $d/patch.diff || { echo "$s: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/ts.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.test 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/ts.json'))
def names(x,k):
    return set(x.get(k,[])) if isinstance(x.get(k),list) else set()
want=b.get('passed') or b.get('stable') or b.get('tests') or b
want=set(want if isinstance(want,list) else [k for k,v in want.items()])
got=r.get('passed') if isinstance(r,dict) else r
got=set(got if isinstance(got,list) else [k for k,v in got.items()])
print(sorted(want-got)[:5])
P
)
  (cd /repo && bash $d/demo.sh >/tmp/ts.bad 2>&1); m=$?
  if [ -z "$NOCHECK" ]; then timeout 900 python3 /verif/check.py $p >/tmp/ts.check 2>&1; k=$?; fi
  git -C /repo checkout -q -- .
  echo "$s [$p] demo-clean=$c build=$b lost-tests=$t demo-bad=$m check=$k $(grep -aE '^(VIOLATION|PROBLEM|counterexample)' /tmp/ts.check | head -2 | cut -c1-150 | tr '\n' ' ')"
done
