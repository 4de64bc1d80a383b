#!/bin/bash
# seedtest.sh <seed-id> [check-tier]: validate a planted bug in a scratch copy and run its property's check on it.
# Uses a scratch copy of /repo under /tmp (removed afterwards) with its own build.
set -u
id=$1; V=/verif; S=$V/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$W"' EXIT
git -C /repo worktree prune
cp -a /repo/. $W/repo 2>/dev/null || { mkdir $W/repo; cp -a /repo/. $W/repo/; }
rm -rf $W/repo/_build
if [ "${FULL:-0}" = 1 ]; then :; fi
git -C $W/repo apply $S/patch.diff || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
if [ "${DEMO:-1}" = 1 ]; then
 # run demo in the real /repo with patch applied (needs /repo/_build), then restore
 ( flock 9
  git -C /repo apply $S/patch.diff && bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1 || echo "$id: BUILD FAILED"
  bash /opt/vp/test.sh /tmp/seedt.json >/dev/null 2>&1; python3 /verif/tools/cmpbase.py /tmp/seedt.json | tail -1
  cp -r $S $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
  (cd /repo; timeout 300 bash $W/demo/demo.sh >/tmp/seeddemo.log 2>&1); echo "$id demo patched rc=$? (want nonzero)"
  git -C /repo checkout -- .
  bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1
  (cd /repo; timeout 300 bash $W/demo/demo.sh >/tmp/seeddemo2.log 2>&1); echo "$id demo clean rc=$? (want 0)"
 ) 9>/tmp/seed.lock
fi
for p in ${CHECKS:-$prop}; do
VF_REPO=$W/repo VF_BUILD=$W/build VF_OUT=$W/out VF_EVIDENCE=$W/ev timeout 900 $V/check $p --tier quick > $W/log 2>&1; rc=$?
echo "$id check $p rc=$rc"; grep -A1 -m2 "VIOLATION\|CHECK-ERROR" $W/log | cut -c1-200
done
