#!/bin/bash
# seed_try.sh ID [CHECK...]: confirms a planted bug of /verif/seeded in a scratch copy of /repo, and runs the checks on it.
# (applies, builds, passes the tests, its demo distinguishes; then the named checks, default: the one of its property)
set -u
ID=$1; shift
S=/verif/seeded/$ID
W=/tmp/wt; B=/tmp/wtb
. /opt/vp/env.sh
if [ ! -d $W ]; then cp -a /repo $W; mkdir -p $B; for f in setup.py README.rst qmeq; do ln -sfn $W/$f $B/$f; done; fi
git -C $W fetch -q /repo HEAD && git -C $W checkout -q -f FETCH_HEAD
bld() { find $W/qmeq -name __pycache__ -type d -prune -exec rm -rf {} + ; (cd $B && $PY setup.py build --build-base $W/build build_ext --inplace --cython -j8) >/tmp/wt.build 2>&1; }
bld || { echo "$ID: base build failed"; exit 1; }
(cd $W && timeout 300 bash $S/demo.sh >/tmp/wt.demo0 2>&1); D0=$?
git -C $W apply $S/patch.diff || { echo "$ID: does not apply"; exit 1; }
bld || { echo "$ID: patched build failed"; git -C $W checkout -q -f; exit 1; }
(cd $W && timeout 300 bash $S/demo.sh >/tmp/wt.demo1 2>&1); D1=$?
T=$(cd $W && $PY -m pytest -q -p no:cacheprovider --timeout=300 qmeq/tests 2>&1 | tail -1)
echo "$ID: demo base=$D0 patched=$D1; tests: $T"
[ $D0 = 0 ] || cat /tmp/wt.demo0
P=${*:-$($PY -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
for c in $P; do
  (cd /verif && QMON_REPO=$W VERIF_SEED=1 $PY run_check.py $c --tier quick) > /tmp/wt.$c.log 2>&1; rc=$?
  echo "   $c exit=$rc $(grep -c ^VIOLATION /tmp/wt.$c.log) violations $(grep -m1 ^VIOLATION /tmp/wt.$c.log | cut -c1-150)"
done
git -C $W checkout -q -f
