#!/bin/bash
# seedcheck.sh ID [notest]   (development aid, not used by any check)
# In a private mount namespace with a scratch copy of /repo and of /verif: applies seeded/ID/patch.diff, runs the
# repository's tests against the baseline, the demonstration with and without the patch, and the property's check.
id=$1; W=/tmp/seedwork/$id; mkdir -p $W; rm -rf $W/repo $W/verif
cp -a /repo $W/repo; mkdir $W/verif; cp -a /verif/bin /verif/spec /verif/java /verif/harness /verif/seeded /verif/known_findings.jsonl $W/verif/ ; cp -a /verif/work/classes $W/verif/ 2>/dev/null; mkdir -p $W/verif/work; mv $W/verif/classes $W/verif/work/ 2>/dev/null
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cat > $W/run.sh <<EOF
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo
bash /verif/seeded/$id/demo.sh > $W/demo0.log 2>&1; echo "demo unchanged rc=\$?"
git apply /verif/seeded/$id/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > $W/build.log 2>&1
bash /verif/seeded/$id/demo.sh > $W/demo1.log 2>&1; echo "demo patched rc=\$?"
(cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 bin/check.py $prop > $W/check.log 2>&1; echo "check $prop rc=\$?"; grep -c ^VIOLATION $W/check.log)
if [ "$2" != notest ]; then bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('$W/out.json')); 
p=set(o.get('passed',o.get('pass',[])))
m=[x for x in b if x not in p]; print('stable tests failing:',len(m),m[:5])
P
fi
EOF
unshare -Urm bash $W/run.sh 2>&1 | sed "s/^/[$id] /" | tee $W/result.txt
rm -rf $W/repo $W/verif
