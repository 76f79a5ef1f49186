#!/bin/bash
# seedtest.sh ID...: is the seed valid (applies, builds, passes the tests, demo 0 without and non-zero with it)
for i in "$@"; do
 d=/verif/seeded/$i
 cd ${RS:-/repo}; git checkout -q -- .
 bash $d/demo.sh > /tmp/seed.out 2>&1; a=$?
 git apply $d/patch.diff || { echo "$i: does not apply"; continue; }
 bash $d/demo.sh > /tmp/seed2.out 2>&1; b=$?
 bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.log 2>&1
 python3 - $i $a $b <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/seed.json'))
miss=[t for t in b if t not in r['passed']]
print(sys.argv[1],'clean demo',sys.argv[2],'patched demo',sys.argv[3],'stable tests failing',len(miss),miss[:3])
P
 git checkout -q -- .
done
