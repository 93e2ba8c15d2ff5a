#!/bin/bash
# seedtest.sh ID...: in a scratch copy, check that each planted bug builds, passes the stable tests, and that its demo tells the two trees apart (dev helper)
# then runs the property's quick check against /repo with the patch applied
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo && [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  bash $d/demo.sh >/tmp/seed.demo0 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/seed.out >/tmp/seed.test 2>&1
  t=$(python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('/tmp/seed.out'));print(len(b-set(o['passed'])))")
  bash $d/demo.sh >/tmp/seed.demo1 2>&1; b=$?
  [ -n "$NOCHECK" ] || { (cd /verif; timeout 900 python3-vt check.py --property $prop --tier quick >/tmp/seed.chk 2>&1); c=$?; }
  git checkout -q -- .
  echo "$id $prop demo_clean=$a demo_bug=$b tests_missing=$t check=$c $(grep -h VIOLATION /tmp/seed.chk | cut -c1-200)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
