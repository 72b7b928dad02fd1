#!/bin/bash
# apply every planted bug (or the named ones) to /repo in turn and run the check of its property
cd "$(dirname "$0")/.."
for d in ${@:-seeded/*/}; do
  id=$(basename $d); prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply $PWD/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  timeout -s KILL 900 python3-vt check.py $prop --tier quick > /tmp/runseed.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $prop rc=$rc $(grep VIOLATION /tmp/runseed.out)"
done
