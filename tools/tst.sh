#!/bin/bash
# tst.sh PATCH: the repository's stable tests on a patched scratch copy of /repo
w=$(mktemp -d /tmp/tstXXXX)
cp -a /repo/. "$w"; cd "$w" || exit 1; git checkout -q -- .
git apply "$1" || { echo "TESTS patch does not apply"; rm -rf "$w"; exit 1; }
unshare -Urmn bash -c "ip link set lo up; mount --bind $w /repo && cd /repo && bash /opt/vp/test.sh $w/out.json" > "$w/log" 2>&1
python3 - "$w" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
o=json.load(open(sys.argv[1]+'/out.json'))
miss=[t for t in b if t not in o['passed']]
print('TESTS', 'ok' if not miss else 'BROKEN %s'%miss[:4])
P
rm -rf "$w"
