#!/bin/bash
# Work on planted bugs in a copy of /repo under /tmp (the copy is bound over /repo in a namespace of its own).
#   seed.sh init            make/refresh the copy /tmp/seedrepo
#   seed.sh save ID         store the copy's working tree diff as seeded/ID/patch.diff
#   seed.sh confirm ID      build + stable tests + demo with the patch, demo without
#   seed.sh check ID CNN... run checks against the patched copy
V=$(dirname "$(dirname "$(readlink -f "$0")")")
S=/tmp/seedrepo
inns() { unshare -Urm bash -c "mount --bind $S /repo && cd /repo && $1"; }
case $1 in
init) rm -rf /tmp/seedrepo; cp -a /repo $S; git -C $S checkout -q -- . ;;
sync) git -C $S checkout -q -- . ; git -C $S pull -q /repo HEAD ;;
save) mkdir -p $V/seeded/$2; git -C $S diff > $V/seeded/$2/patch.diff; git -C $S diff --stat | tail -3 ;;
confirm)
  id=$2; D=/tmp/seeddemo-$id; rm -rf "$D"; cp -r $V/seeded/$id $D
  git -C $S checkout -q -- . && git -C $S apply $V/seeded/$id/patch.diff || exit 1
  inns "bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1 || { echo BUILD FAILS; tail -20 /tmp/seed-build.log; exit 1; }; bash /opt/vp/test.sh /tmp/seed-t.json > /tmp/seed-test.log 2>&1; timeout 300 bash $D/demo.sh > /tmp/seed-demo1.log 2>&1; echo demo with patch: \$?"
  python3 - <<'P'
import json
b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open('/tmp/seed-t.json'))
names = b.get('stable', b.get('passed', b)) if isinstance(b, dict) else b
print('stable tests missing:', sorted(set(names) - set(t['passed']))[:5])
P
  tail -3 /tmp/seed-demo1.log
  git -C $S checkout -q -- .
  inns "bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1; timeout 300 bash $D/demo.sh > /tmp/seed-demo2.log 2>&1; echo demo without patch: \$?"; tail -2 /tmp/seed-demo2.log
  rm -rf "$D" ;;
check)
  id=$2; shift 2
  git -C $S checkout -q -- . && git -C $S apply $V/seeded/$id/patch.diff || exit 1
  for c in "$@"; do
    (cd $V && VF_REPO=$S VF_BUILD=/tmp/seedbuild VF_EVIDENCE=/tmp/seedev python3 check.py $c --tier ${TIER:-quick} --seed ${SEED:-1} 2>&1 | cut -c1-400 | tail -${LINES_:-6}; echo "$id $c exit ${PIPESTATUS[0]}")
  done
  git -C $S checkout -q -- . ;;
esac
