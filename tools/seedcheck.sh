#!/bin/bash
# seedcheck.sh ID [CHECK...]: confirm a planted bug (seeded/ID) in a scratch worktree: applies, builds, passes the
# stable tests, its demo passes without it and fails with it; then run the named checks (default: its own property).
ID=$1; shift; V=${SV:-/verif}; S=$V/seeded/$ID; W=/tmp/seedwt
B() { cmake -S $W -B $W/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2 -g -Wno-error' -DCMAKE_CXX_STANDARD=14 '-DCMAKE_CXX_FLAGS=-include memory' -DCMAKE_POLICY_VERSION_MINIMUM=3.5 >/dev/null 2>&1; ninja -C $W/_build >/tmp/seedwt.log 2>&1; }
H=$(git -C /repo rev-parse HEAD)
if [ ! -d $W ]; then git -C /repo worktree add -q --detach $W $H; fi
git -C $W checkout -q -f $H
D=$(mktemp -d /tmp/demo.XXXX); cp -a $S/. $D/; rm -f $D/patch.diff $D/meta.json
if [ -z "$SKIPDEMO" ]; then
B || { echo "$ID: clean build failed"; exit 1; }
(cd $W && timeout 300 bash $D/demo.sh >/tmp/demo.out 2>&1); r0=$?
git -C $W apply $S/patch.diff || { echo "$ID: does not apply"; exit 1; }
B || { echo "$ID: build with patch failed"; tail -5 /tmp/seedwt.log; git -C $W checkout -q -f $H; exit 1; }
(cd $W && timeout 300 bash $D/demo.sh >/tmp/demo1.out 2>&1); r1=$?
t=$(ctest --test-dir $W/_build -j1 --timeout 60 2>/dev/null | grep -E "tests passed|Failed|Timeout" | head -4 | tr '\n' ' ')
echo "$ID: demo clean=$r0 patched=$r1 tests: $t"
[ $r0 = 0 ] || tail -3 /tmp/demo.out; [ $r1 != 0 ] && tail -2 /tmp/demo1.out
else git -C $W apply $S/patch.diff || { echo "$ID: does not apply"; exit 1; }; fi
find $D -delete
P="$*"; [ -n "$P" ] || P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd $V
for p in $P; do
  VERIF_REPO=$W VERIF_BUILD=/tmp/bld_seed python3 check.py $p --tier quick --evidence /tmp/ev_seed > /tmp/seedout.txt 2>&1; r=$?
  echo "$ID: check $p rc=$r $(grep -m1 -E 'VIOLATION' /tmp/seedout.txt) $(grep -m1 -iE 'scenario=' /tmp/seedout.txt | cut -c1-160)"
done
git -C $W checkout -q -f $H
