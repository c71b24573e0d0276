#!/bin/bash
# try.sh ID... : applies each planted bug to /repo, runs the check of its property, undoes it
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  (cd /verif && timeout 1200 python3-vt check.py ${PROP:-$p} > /tmp/try.log 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id ${PROP:-$p} rc=$rc $(grep -c '^VIOLATION' /tmp/try.log) $(grep -E 'assertion|NO-ANSWER' /tmp/try.log | head -2 | cut -c1-150)"
done
