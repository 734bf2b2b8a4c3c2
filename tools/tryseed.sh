#!/bin/bash
# tryseed.sh [-b] ID... : apply each seeded change to /repo, run the demo and its property's quick check (with -b also build and test), undo it
b=0; [ "$1" = -b ] && { b=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$V/seeded/$id
  p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1); r0=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  t=""
  if [ $b = 1 ]; then bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || t=" BUILD-FAILED"; bash /opt/vp/test.sh /tmp/tt.json >/dev/null 2>&1; t="$t tests $(python3 -c "import json;d=json.load(open('/tmp/tt.json'));print(len(d['passed']),len(d['failed']))")"; fi
  (cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1); r1=$?
  (cd $V && timeout 900 python3 check.py $p --tier quick >/tmp/check.$id.out 2>&1); r2=$?
  git -C /repo checkout -- .
  echo "$id $p: demo clean=$r0 patched=$r1;$t check exit=$r2 $(grep -c VIOLATION /tmp/check.$id.out) $(grep -m1 -B1 VIOLATION /tmp/check.$id.out | head -1 | cut -c1-150)"
done
