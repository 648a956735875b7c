#!/bin/bash
# tools/refactortest.sh NAME [CHECK ...]: apply refactors/NAME.diff (a change that keeps the behaviour) in a scratch copy shown
# as /repo, run the stable tests, then every check: all have to stay quiet. Not used by any check.
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/rt.$ID; rm -rf "/tmp/rt.$ID"; cp -a ${SEEDSRC:-/repo} $S
CH="$@"; [ -z "$CH" ] && CH=$(cd $V/checks; ls c[0-9]*.py | sed "s/.py//;s/c/C/" | tr "\n" " ")
D=/tmp/rtd.$ID; rm -rf "/tmp/rtd.$ID"; mkdir $D
unshare -Urm bash -c "
mount --bind $S /repo; cd /repo
git checkout -q -- .
git apply $V/refactors/$ID.diff || { echo 'PATCH FAILS'; exit 1; }
if [ -z \"\$NOTESTS\" ]; then
bash /opt/vp/build.sh >$D/build.log 2>&1; bash /opt/vp/test.sh $D/t.json >$D/test.log 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('$D/t.json'))
miss=[x for x in b if x not in t['passed']]
print('$ID tests:', 'ok' if not miss else 'MISSING %s'%miss)
P
fi
mkdir -p $D/v; cp -a $V/. $D/v/ ; cd $D/v; rm -rf $D/v/evidence
for c in $CH; do t=\$(date +%s); VERIF_SEED=1 timeout 900 ./check.sh \$c quick >$D/\$c.log 2>&1; rc=\$?; echo \"$ID \$c: rc=\$rc \$((\$(date +%s)-t))s \$(grep -m1 VIOLATION $D/\$c.log) \$(tail -1 $D/\$c.log | cut -c1-200)\"; done
cp -r $D/v/evidence $D/evidence
"
rm -rf "/tmp/rt.$ID" "/tmp/rtd.$ID/v"
