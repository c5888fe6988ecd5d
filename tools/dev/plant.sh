#!/bin/bash
# plant.sh ID: /verif/seeded/ID holds patch.diff, demo.* and meta.json; in a
# scratch copy mounted over /repo (own mount namespace), applies the patch,
# builds, runs the tests, the demo and the check of the property.
# Development tool, used by no check.
V=${SEEDV:-/verif}; R=${SEEDR:-/repo}
id=$1; s=$V/seeded/$id
[ -f $s/patch.diff ] || { echo "no patch"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
[ -n "$2" ] && prop=$2
wt=/tmp/plant-$id; rm -rf $wt; mkdir -p $wt/work
cp -a $R $wt/repo; mkdir $wt/verif
cp -a $V/build $V/harness $V/iop $V/tools $V/known-findings.txt $wt/verif/ 2>/dev/null
git -C $wt/repo checkout -q -- . && git -C $wt/repo apply $s/patch.diff || { echo "$id: patch does not apply"; rm -rf $wt; exit 2; }
(cd /repo && bash $s/demo.sh >$wt/demo0.log 2>&1); d0=$?
unshare -Urmn bash -c "
ip link set lo up
mount --bind $wt/repo /repo; mount --bind $wt/work /opt/vp/work
cp -a $s $wt/demo
mount --bind $wt/verif /verif
bash /opt/vp/build.sh >$wt/build.log 2>&1 || { echo '$id: BUILD FAILS'; tail -5 $wt/build.log; exit 2; }
if [ -z '$NOTEST' ]; then
bash /opt/vp/test.sh $wt/o.json >$wt/t.log 2>&1
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('$wt/o.json'))['passed'])
print('$id: tests', 'OK' if b<=o else 'BROKEN '+str(sorted(b-o)[:5]))
P
fi
cd /repo && bash $wt/demo/demo.sh >$wt/demo1.log 2>&1; d1=\$?
[ \$d1 != 0 ] && [ $d0 = 0 ] && echo '$id: demo OK' || { echo \"$id: DEMO WRONG: unchanged $d0 patched \$d1\"; tail -5 $wt/demo0.log; tail -5 $wt/demo1.log; }
cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 tools/check.py $prop >$wt/check.log 2>&1; c=\$?
grep -q \"^VIOLATION property=$prop\" $wt/check.log && [ \$c = 1 ] && echo '$id: CAUGHT by $prop' || { echo '$id: MISSED by $prop (exit '\$c')'; tail -3 $wt/check.log; }
grep -B12 '^VIOLATION' $wt/check.log | cut -c1-200 | head -${SHOW:-4}
"
rm -rf $wt
