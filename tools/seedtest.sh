#!/bin/bash
# seedtest.sh ID [notest]: confirms a planted bug in a scratch copy bind-mounted over /repo in a private mount namespace
id=$1; S=${SEEDS:-/verif/seeded}/$id; W=/tmp/seed-$id
rm -rf /tmp/seed-$id; mkdir -p $W; cp -a /repo $W/repo; rm -rf $W/repo/_build/testrun
cp -r $S $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
unshare -m bash -c "
mount --bind $W/repo /repo; cd /repo
bash $W/demo/demo.sh > $W/d0.log 2>&1; r0=\$?
git apply $S/patch.diff || { echo '$id: patch does not apply'; exit 1; }
r1=0; bash $W/demo/demo.sh > $W/d1.log 2>&1; r1=\$?
t=skipped
if [ -z '$2' ]; then bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1; t=\$(python3 -c \"import json; d=json.load(open('$W/t.json')); print(len(d['passed']),'passed; failed',d['failed'])\"); fi
echo \"$id: demo unchanged=\$r0 patched=\$r1 tests: \$t\"; tail -2 $W/d1.log
"
rm -rf /tmp/seed-$id
