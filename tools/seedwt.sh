#!/bin/bash
# usage: seedwt.sh ID...  -- like tryseed.sh without build and tests, each in its own clone of /repo under /tmp/w/seed
mkdir -p /tmp/w/seed
one() (
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=/tmp/w/seed/$id; cd /; rm -rf "$w"; git clone -q /repo $w; cd $w
timeout 300 bash $d/demo.sh > $w.demo0.log 2>&1; D0=$?
git apply $d/patch.diff || { echo "$id does not apply"; cd /; rm -rf "$w"; return; }
timeout 300 bash $d/demo.sh > $w.demo1.log 2>&1; D1=$?
C=-
if [ "$NOCHECK" = "" ]; then (cd /verif; VERIF_REPO=$w VERIF_EVID=/tmp/w/seed timeout 900 python3-vt check.py $prop > $w.log 2>&1); C=$?; fi
echo "$id prop=$prop demo_clean=$D0 demo_patched=$D1 check=$C $(grep -h VIOLATION $w.log 2>/dev/null | head -1)"
cd /; rm -rf "$w"
)
for i in "$@"; do one $i; done
