#!/bin/bash
# development aid: tryseed.sh ID...   applies each planted bug to /repo, builds, tests, runs its demo and its property's check, undoes it
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh > /tmp/seed.log 2>&1; b=$?
  t=-; m=-; c=-
  if [ $b = 0 ]; then
    bash /opt/vp/test.sh /tmp/seed.json > /tmp/seedt.log 2>&1; t=$(tail -1 /tmp/seedt.log)
    (cd /repo; bash $d/demo.sh > /tmp/seedd.log 2>&1); m=$?
    if [ -z "$NOCHECK" ]; then timeout 900 python3 checks/${p,,}.py > /tmp/seedc.log 2>&1; c=$?; fi
  fi
  git -C /repo checkout -- .
  echo "$id [$p]: build=$b tests=$t demo(patched)=$m check=$c $(grep -m1 -o 'violated: .\{0,140\}' /tmp/seedc.log)"
done
bash /opt/vp/build.sh > /tmp/seed.log 2>&1
for id in "$@"; do (cd /repo; bash /verif/seeded/$id/demo.sh > /tmp/seedd.log 2>&1); echo "$id: demo(unchanged)=$?"; done
