#!/bin/bash
# seedtest.sh ID [notest]: in a scratch copy of /repo, check that the planted bug builds, passes the tests and is
# shown by its demo, and that the demo passes without it
S=/tmp/st; D=/verif/seeded/$1
rsync -a --delete --exclude target /repo/ $S/repo/
rm -rf /tmp/st/demo; cp -a $D $S/demo; sed -i "s#/opt/vp#$S/vp#g; s#/repo\b#$S/repo#g" $S/demo/*.sh
b() { bash $S/vp/build.sh > $S/build.log 2>&1; }
d() { (cd $S/repo && timeout 300 bash $S/demo/demo.sh > $S/demo.log 2>&1); echo "demo $1: exit $?"; tail -2 $S/demo.log; }
if [ "$3" != nobase ]; then b || { echo "BASE BUILD FAILED"; tail -5 $S/build.log; exit 1; }; d base; fi
git -C $S/repo apply $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
b || { echo "BUILD FAILED"; grep -A5 '^error' $S/build.log | head -20; exit 1; }
d patched
if [ "$2" != notest ]; then bash $S/vp/test.sh $S/out.json > $S/test.log 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$S/out.json'))
print('tests', len(o['passed']), 'failed', o['failed'], 'missing', sorted(set(b['stable'])-set(o['passed']))[:5])
P
fi
