#!/bin/bash
# tools/seedtest.sh ID [CHECK ...]: validate seeded/ID in a scratch copy shown as /repo in a mount namespace, then run checks against it.
# Needs /repo built (bash /opt/vp/build.sh) beforehand. Not used by any check.
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/sd.$ID; rm -rf "/tmp/sd.$ID"; cp -a ${SEEDSRC:-/repo} $S
PROP=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
CH="$@"; [ -z "$CH" ] && CH=$PROP
D=/tmp/sdd.$ID; rm -rf "/tmp/sdd.$ID"; cp -a $V/seeded/$ID $D
unshare -Urm bash -c "
mount --bind $S /repo; cd /repo
git checkout -q -- . 
if [ -z \"\$NODEMO\" ]; then
timeout 300 bash $D/demo.sh >$D/clean.log 2>&1; echo \"$ID demo clean: \$?\"
fi
git apply $D/patch.diff || { echo 'PATCH FAILS'; exit 1; }
if [ -z \"\$NODEMO\" ]; then
bash /opt/vp/test.sh $D/t.json >$D/test.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('$D/t.json'))
miss=[x for x in b if x not in t['passed']]
print('$ID tests:', 'ok' if not miss else 'MISSING %s'%miss)
P
timeout 300 bash $D/demo.sh >$D/bug.log 2>&1; echo \"$ID demo patched: \$?\"
fi
mkdir -p $D/v; cp -a $V/. $D/v/ ; cd $D/v; rm -rf $D/v/evidence
for c in $CH; do VERIF_SEED=1 timeout 900 ./check.sh \$c quick >$D/\$c.log 2>&1; echo \"$ID \$c: rc=\$? \$(grep -c VIOLATION $D/\$c.log) \$(grep -m1 VIOLATION $D/\$c.log)\"; done
"
rm -rf "/tmp/sd.$ID" "/tmp/sdd.$ID/v"
