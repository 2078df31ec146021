#!/bin/bash
# plant.sh SEEDED_ID [CHECK_ID...]: confirm a planted bug in a scratch copy of /repo (bind-mounted over /repo in a
# private mount namespace) and run checks against it. /repo and /verif themselves are not touched.
set -u
ID=$1; shift
S=${PLANT_DIR:-/tmp/plant}; mkdir -p $S/repo $S/mctarget $S/mcv $S/miritarget /verif/miri/target
D=/verif/seeded/$ID; case $ID in /*) D=$ID;; esac
exec unshare -Urm bash -c '
S='"$S"'; D='"$D"'; 
mount --bind $S/mctarget /verif/mc/target
mount --bind $S/miritarget /verif/miri/target
git -C $S/repo fetch -q /repo HEAD 2>/dev/null && git -C $S/repo reset -q --hard FETCH_HEAD && git -C $S/repo clean -fdq
mount --bind $S/repo /repo
cd /repo
if [ -z "${NODEMO:-}" ]; then
bash $D/demo.sh >$S/demo0.log 2>&1; r=$?; [ $r -eq 0 ] && echo "demo unpatched: ok" || { echo "DEMO FAILS UNPATCHED $r"; tail -20 $S/demo0.log; }
fi
git apply $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 9; }
sleep 0.1; git diff --name-only | xargs touch
bash /opt/vp/build.sh >$S/build.log 2>&1 || { echo "BUILD FAILS"; tail -30 $S/build.log; }
if [ -z "${NODEMO:-}" ]; then
bash $D/demo.sh >$S/demo1.log 2>&1; r=$?; [ $r -ne 0 ] && echo "demo patched: fails ($r) ok" || echo "DEMO PASSES WITH PATCH"
tail -2 $S/demo1.log
bash /opt/vp/test.sh $S/out.json >$S/test.log 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("'"$S"'/out.json"))
def passed(x):
    for k in ("passed","stable","tests"):
        if k in x: 
            v=x[k]; return set(v) if not isinstance(v,dict) else {t for t,r in v.items() if r in("passed","pass",True)}
    return set(x)
miss=passed(b)-passed(o)
print("stable tests:", "all pass" if not miss else "LOST %s"%sorted(miss)[:5])
P
fi
for c in '"$*"'; do
 echo "--- $c"; t=$(date +%s)
 MC_VERIF=$S/mcv timeout 900 /verif/check.sh $c quick >$S/check.log 2>&1; r=$?
 echo "$c rc=$r $(( $(date +%s)-t )) s"; grep -m3 -E "VIOLATION|KNOWN|ERROR" $S/check.log; grep -m1 -A4 -E "^error" $S/check.log
done
'
