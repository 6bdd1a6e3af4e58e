#!/bin/bash
# seedtest.sh ID [nobuild]: in a private copy of /repo (bind-mounted over /repo in a mount namespace): demo on the clean tree, patch, build, tests, demo, check.
ID=$1; MODE=$2; S=/verif/seeded/$ID; W=/tmp/seedt_$ID
mkdir -p $W/repo $W/verif; cp -a /repo/. $W/repo/; (cd /verif; tar c --exclude=.git --exclude=out --exclude=seeded .) | tar x -C $W/verif; cp -a $S $W/seed
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $W/repo /repo; cd /repo; git config --global --add safe.directory /repo 2>/dev/null
git checkout -q -- .
timeout 300 bash $W/seed/demo.sh >$W/demo0.log 2>&1; echo \"$ID demo clean: \$?\"
git apply $W/seed/patch.diff || echo '$ID PATCH DOES NOT APPLY'
if [ '$MODE' != nobuild ]; then
bash /opt/vp/build.sh >$W/build.log 2>&1; echo \"$ID build: \$?\"
bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1; python3 -c \"
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('$W/t.json'))['passed'])
print('$ID tests missing:', sorted(b-t))\"
fi
timeout 300 bash $W/seed/demo.sh >$W/demo1.log 2>&1; echo \"$ID demo patched: \$?\"
cd $W/verif; VERIF_SEED=1 timeout 900 ./check.sh $P >$W/check.log 2>&1; echo \"$ID check: \$?\"; grep -h 'failing input\|VIOLATION\|obligations' $W/check.log
"
rm -rf $W/repo $W/verif
