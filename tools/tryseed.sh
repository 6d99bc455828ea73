#!/bin/bash
# usage: tryseed.sh ID [nocheck]   -- applies seeded/ID in /repo, builds, tests, runs the demo and the check, reverts
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 3; }
git apply $d/patch.diff || exit 3
bash /opt/vp/build.sh > /tmp/seed.b.log 2>&1 && B=ok || B=FAIL
bash /opt/vp/test.sh /tmp/seed.t.json >/dev/null 2>&1
T=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed.t.json'))
print([x for x in b['stable'] if x not in t['passed']])")
bash $d/demo.sh > /tmp/seed.demo1.log 2>&1; D1=$?
C=-
if [ "$2" != nocheck ]; then (cd /verif; timeout 900 python3-vt check.py $prop > /tmp/seed.c.$id.log 2>&1); C=$?; fi
git -C /repo checkout -- . ; bash /opt/vp/build.sh > /tmp/seed.b2.log 2>&1
bash $d/demo.sh > /tmp/seed.demo0.log 2>&1; D0=$?
echo "$id prop=$prop build=$B missing=$T demo_patched=$D1 demo_clean=$D0 check=$C $(grep -h VIOLATION /tmp/seed.c.$id.log 2>/dev/null | head -1)"
