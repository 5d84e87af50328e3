#!/bin/bash
# Development helper: tryseed.sh ID...: demo on clean, apply, build, demo, stable tests, check, undo.
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d /var/tmp/seed-XXXX); cp -a $d/. $t/; rm -f $t/*.diff $t/meta.json
  (cd /repo && bash $t/demo.sh >$t/clean.log 2>&1); c=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -n "$FULL" ]; then
  bash /opt/vp/build.sh > $t/build.log 2>&1; b=$?
  (cd /repo && bash $t/demo.sh >$t/bug.log 2>&1); x=$?
  bash /opt/vp/test.sh $t/out.json > $t/test.log 2>&1
  python3 - $t/out.json <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
print('   lost tests:', sorted(set(b['stable'])-set(o.get('passed') or o.get('stable') or [k for k,v in o.items() if v in (True,'passed','ok')]))[:5])
P
  else b=-; if [ -n "$BUILD" ]; then bash /opt/vp/build.sh > $t/build.log 2>&1; b=$?; fi; (cd /repo && bash $t/demo.sh >$t/bug.log 2>&1); x=$?; fi
  /verif/bin/check $p --tier quick > $t/check.log 2>&1; k=$?
  git -C /repo checkout -q -- .
  [ -n "$FULL$BUILD" ] && bash /opt/vp/build.sh > /dev/null 2>&1
  echo "$id $p: demo clean=$c bug=$x build=$b check=$k (want 0 / !=0 / 0 / 1)   $(grep -v '^OK\|^VIOL' $t/check.log | head -2)"
  [ $c = 0 -a $x != 0 ] || for f in $t/clean.log $t/bug.log; do tail -n 6 $f; done
  rm -rf $t
done
