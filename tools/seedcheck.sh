#!/bin/bash
# seedcheck.sh ID...: runs the property's check against planted bugs (in a private copy of /repo bind-mounted over /repo)
for id in "$@"; do
p=$(python3 -c "import json; print(json.load(open('${SEEDS:-/verif/seeded}/$id/meta.json'))['property'])")
W=/tmp/sc-$id; mkdir -p $W; cp -a /repo $W/repo 2>/dev/null
unshare -m bash -c "mount --bind $W/repo /repo; cd /repo; git apply ${SEEDS:-/verif/seeded}/$id/patch.diff && cd /verif && t0=\$(date +%s); python3 check.py $p quick > $W/out 2>&1; echo \"$id: rc=\$? \$((\$(date +%s)-t0))s\"; grep -h VIOLATION $W/out | head -3; grep -c . $W/out"
rm -rf /tmp/sc-$id
done
