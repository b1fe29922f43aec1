#!/bin/bash
# seedtest.sh ID [PROP..] : validate a planted bug in /repo itself (applied, then undone) and run checks on it
id=$1; shift; d=/verif/seeded/$id
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 1; }
bash $d/demo.sh > /tmp/seed.$id.log 2>&1; a=$?
git apply $d/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > /tmp/seed.$id.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/seed.$id.json > /tmp/seed.$id.test 2>&1
t=$(python3 -c "
import json
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/seed.$id.json'))['passed'])
print(sorted(base-p) or 'ok')")
bash $d/demo.sh >> /tmp/seed.$id.log 2>&1; c=$?
echo "$id demo-clean=$a build=$b tests=$t demo-patched=$c"
for p in "$@"; do
  (cd /verif && VERIF_TIER=quick timeout 900 python3 run.py $p > /tmp/seed.$id.$p.log 2>&1); r=$?
  echo "$id $p exit=$r $(grep -m1 VIOLATION /tmp/seed.$id.$p.log)"
done
