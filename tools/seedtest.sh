#!/bin/bash
# seedtest.sh ID...: demo on the clean tree, then with each patch build, tests, demo, check of its property
cd /verif
git -C /repo diff --quiet || exit 9
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || exit 9
for i in "$@"; do bash seeded/$i/demo.sh >/tmp/sd.log 2>&1; echo "$i clean demo rc=$? $(tail -1 /tmp/sd.log)"; done
for i in "$@"; do
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i NOAPPLY"; continue; }
  t=$(bash /opt/vp/test.sh /tmp/st.json 2>&1 | tail -1)
  (cd /repo && timeout 300 bash /verif/seeded/$i/demo.sh >/tmp/sd.log 2>&1); rc=$?
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  VERIF_SEED=1 ./check.py $p quick >/tmp/sc-$i.log 2>&1; cr=$?
  echo "$i [$p] tests: $t; demo rc=$rc ($(tail -1 /tmp/sd.log)); check rc=$cr $(grep -c VIOLATION /tmp/sc-$i.log)"
  git -C /repo checkout -q -- .
done
bash /opt/vp/build.sh >/tmp/sb.log 2>&1
