#!/bin/bash
# Working-tree change in /repo -> seeded/<id>/patch.diff; confirms build, tests, demo both ways.  usage: mkseed.sh ID [checks...]
set -u
S=/verif/seeded/$1; shift
mkdir -p $S
if [ -n "$(git -C /repo status --porcelain -uno)" ]; then git -C /repo diff > $S/patch.diff; else git -C /repo apply $S/patch.diff || exit 1; fi
echo "--- patch lines: $(grep -c '^[-+]' $S/patch.diff)"
bash /opt/vp/build.sh > /tmp/mkseed.log 2>&1 || { tail -20 /tmp/mkseed.log; }
bash /opt/vp/test.sh /tmp/mkseed.json > /dev/null 2>&1
python3 -c "
import json
a=json.load(open('/tmp/mkseed.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('tests passed',len(a['passed']),'missing stable', [x for x in b['stable'] if x not in a['passed']][:5])"
(cd /repo; timeout 300 bash $S/demo.sh > /tmp/mkseed.demo 2>&1); echo "demo patched: $? (want nonzero)"; tail -2 /tmp/mkseed.demo
for c in "$@"; do (cd /verif; timeout 900 python3-vt checks/$c.py > /tmp/mkseed.$c 2>&1; echo "check $c exit $?"; grep -E 'VIOLATION|UNCONF|counterexample|INCONC|ERROR|INCOMPL' /tmp/mkseed.$c | cut -c1-250 | head -6; head -1 /tmp/mkseed.$c|cut -c1-200); done
git -C /repo checkout -q -- .
bash /opt/vp/build.sh > /tmp/mkseed.log 2>&1
(cd /repo; timeout 300 bash $S/demo.sh > /tmp/mkseed.demo 2>&1); echo "demo clean: $? (want 0)"; tail -1 /tmp/mkseed.demo
