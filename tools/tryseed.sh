#!/bin/bash
# tryseed.sh [-t] <id>... : demo on clean tree and with the patch (in /repo, undone straight afterwards); -t also runs the tests
T=0; [ "$1" = -t ] && { T=1; shift; }
for id in "$@"; do
  d=/verif/seeded/$id
  (cd /repo && bash $d/demo.sh > /tmp/sd/$id.clean 2>&1); c=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if git -C /repo diff --name-only | grep -q 'pyx\|\.in$\|pythran'; then bash /opt/vp/build.sh > /tmp/sd/build.log 2>&1 || echo "build failed"; B=1; else B=0; fi
  (cd /repo && bash $d/demo.sh > /tmp/sd/$id.bug 2>&1); b=$?
  t=-
  if [ $T = 1 ]; then
    bash /opt/vp/test.sh /tmp/sd/$id.json > /tmp/sd/$id.test 2>&1
    t=$(python3 - <<P
import json
r=json.load(open('/tmp/sd/$id.json')); s=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
print('tests-ok' if s<=set(r.get('passed',[])) else 'TESTS-FAIL %s' % sorted(s-set(r.get('passed',[])))[:4])
P
)
  fi
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /verif && timeout 900 python3 run.py $p quick > /tmp/sd/$id.chk 2>&1); k=$?
  git -C /repo checkout -q -- .
  [ $B = 1 ] && bash /opt/vp/build.sh > /tmp/sd/build.log 2>&1
  echo "$id: clean=$c bug=$b tests=$t check=$p rc=$k $(grep -c ^VIOLATION /tmp/sd/$id.chk) $(grep -m1 ^VIOLATION /tmp/sd/$id.chk | cut -c1-100)"
done
