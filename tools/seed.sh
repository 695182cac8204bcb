#!/bin/bash
# tools/seed.sh ID...   verifies planted bugs: builds, passes stable tests, demo fails with it,
# check of its property reports. Leaves /repo clean.
cd /repo
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo dirty"; exit 1; }
for id in "$@"; do
  S=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git apply --check $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  git apply $S/patch.diff
  if bash /tmp/w/t.sh >/tmp/w/seed.log 2>&1; then t=ok; else t="TESTS-FAIL($(tail -1 /tmp/w/seed.log|cut -c1-200))"; fi
  timeout 300 bash $S/demo.sh >/tmp/w/demo.log 2>&1; d=$?
  (cd /verif && timeout 900 ./check.sh $prop quick >/tmp/w/chk.log 2>&1); c=$?
  git checkout -q -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  timeout 300 bash $S/demo.sh >/tmp/w/demo0.log 2>&1; d0=$?
  echo "$id prop=$prop tests=$t demo_clean=$d0 demo_bug=$d check=$c $(grep -m1 violation: /tmp/w/chk.log | cut -c1-160)"
done
