#!/bin/bash
# try.sh ID [notest] -> validate a seeded bug; prints a summary
ID=$1; S=/verif/seeded/$ID; W=/tmp/sr/w.$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; mkdir -p $W; cp -a /repo $W/repo; mkdir $W/verif $W/demo
(cd /verif && tar cf - --exclude=.git --exclude=seeded --exclude=replays . ) | tar xf - -C $W/verif
mkdir -p $W/verif/replays
cp -a $S/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
unshare -Urm bash -c "mount --bind $W/repo /repo; cd /repo; timeout 300 bash $W/demo/demo.sh" >$W/demo0.log 2>&1; D0=$?
git -C $W/repo apply $S/patch.diff || { echo "$ID patch does not apply"; exit 1; }
unshare -Urm bash -c "mount --bind $W/repo /repo; cd /repo; bash /opt/vp/build.sh" >$W/build.log 2>&1; B=$?
unshare -Urm bash -c "mount --bind $W/repo /repo; cd /repo; timeout 300 bash $W/demo/demo.sh" >$W/demo1.log 2>&1; D1=$?
unshare -Urm bash -c "mount --bind $W/repo /repo; cd $W/verif; VERIF_PROCS=${VERIF_PROCS:-8} bin/check $P quick" >$W/check.log 2>&1; C=$?
T=skipped
if [ -z "$2" ]; then
unshare -Urm bash -c "mount --bind $W/repo /repo; bash /opt/vp/test.sh $W/out.json" >$W/test.log 2>&1
T=$(python3 -c "
import json
a=json.load(open('$W/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('missing:',sorted(set(b['stable'])-set(a['passed'])))")
fi
echo "$ID prop=$P demo_clean=$D0 build=$B demo_patched=$D1 check=$C $(grep -c ^VIOLATION $W/check.log) tests $T"
grep -m2 -E '^(why|VIOLATION)' $W/check.log | cut -c1-300
rm -rf "$W/repo" "$W/verif"
