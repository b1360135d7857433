#!/bin/bash
# usage: seedtest.sh ID [--nobuild]   validate one planted change in a scratch copy of /repo (under /tmp/seed)
ID=$1; S=/verif/seeded/$ID; R=/tmp/seed/repo; B=/tmp/seed/b; H=$(git -C /repo rev-parse HEAD)
mkdir -p /tmp/seed
if [ "$(cat /tmp/seed/head 2>/dev/null)" != "$H" ]; then rm -rf /tmp/seed/repo /tmp/seed/repo2; git clone -q /repo $R; git clone -q /repo /tmp/seed/repo2; echo $H > /tmp/seed/head; fi
git -C $R checkout -q -- . ; git -C $R clean -qfd
[ -n "$(ls /repo/_build/_deps 2>/dev/null)" ] && FC="-DFETCHCONTENT_BASE_DIR=/tmp/seed/deps"
D=/tmp/seed/demo; rm -rf $D; mkdir -p $D; cp -r $S/. $D; rm -f $D/*.diff $D/*.patch $D/meta.json
(cd $R && timeout 300 bash $D/demo.sh >/tmp/seed/d0.log 2>&1); r0=$?
git -C $R apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
(cd $R && timeout 300 bash $D/demo.sh >/tmp/seed/d1.log 2>&1); r1=$?
echo "$ID demo: clean $r0 (want 0), patched $r1 (want nonzero): $(tail -1 /tmp/seed/d1.log | cut -c1-200)"
[ $r0 = 0 ] && [ $r1 != 0 ] || exit 1
[ "$2" = --nobuild ] && exit 0
[ -f $B/build.ninja ] || cmake -S $R -B $B -G Ninja -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_BUILD_TYPE=Debug -DCPPSORT_BUILD_TESTING=ON -DCPPSORT_BUILD_EXAMPLES=OFF >/tmp/seed/cmake.log 2>&1 || { echo cmake failed; exit 1; }
nice -n 5 ninja -C $B main-tests heap-memory-exhaustion-tests >/tmp/seed/build.log 2>&1 || { echo "$ID: build FAILED"; grep -m5 error /tmp/seed/build.log; exit 1; }
for t in main-tests heap-memory-exhaustion-tests; do $(find $B -name $t -type f | head -1) >/tmp/seed/$t.log 2>&1; e=$?; echo "$ID $t: exit $e $(grep -E 'test cases' /tmp/seed/$t.log)"; done
