#!/bin/bash
# seedtest.sh [-n] ID...: demo on the clean tree, then per seed: apply, build, stable tests, demo, check; revert. (developer tool)
#  -n: skip building/testing, only the check
V=/verif; NB=0; [ "$1" = -n ] && { NB=1; shift; }
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo dirty"; exit 2; }
if [ $NB = 0 ]; then
  bash /opt/vp/build.sh >/tmp/st-build.log 2>&1
  for i in "$@"; do (cd /repo && bash $V/seeded/$i/demo.sh >/tmp/st-demo-$i.log 2>&1) && echo "$i clean demo ok" || echo "$i CLEAN DEMO FAILS"; done
fi
for i in "$@"; do
  git -C /repo apply $V/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  r="$i:"
  if [ $NB = 0 ]; then
    bash /opt/vp/build.sh >/tmp/st-build.log 2>&1 && r="$r builds" || r="$r BUILD-FAILS"
    (cd /repo && bash $V/seeded/$i/demo.sh >/tmp/st-demo-$i.p.log 2>&1) && r="$r DEMO-DOES-NOT-FAIL" || r="$r demo-fails(good)"
    bash /opt/vp/test.sh /tmp/st-out.json >/tmp/st-test.log 2>&1
    r="$r $(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/st-out.json'))
m=set(b['stable'])-set(o['passed']); print('tests-pass' if not m else 'TESTS-FAIL %d %s'%(len(m),sorted(m)[:3]))")"
  fi
  P=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
  (cd $V && VERIF_EVIDENCE=/tmp/st-ev python3 sa/check.py $P >/tmp/st-check-$i.log 2>&1) ; rc=$?
  grep -q "^VIOLATION property=$P" /tmp/st-check-$i.log && r="$r CAUGHT($P rc=$rc)" || r="$r missed($P rc=$rc)"
  git -C /repo checkout -q -- .
  echo "$r"
done
