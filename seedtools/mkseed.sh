#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS : the change must be applied in /tmp/seed/repo, main.rs in /tmp/seed/main.rs
# verifies: tests pass with the change, demo passes without and fails with it; then stores it in /verif/seeded/ID
set -e
id=$1; d=/verif/seeded/$id; s=/tmp/seed
mkdir -p $d; cp /verif/seedtools/mock.rs /verif/seedtools/demo.sh $s/main.rs $d/
chmod +x $d/demo.sh
git -C $s/repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
python3 - "$@" <<P
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("$d/meta.json","w"),indent=1)
P
(cd $s/repo && cargo test --offline --lib -- --test-threads=1 --skip gripper::tests 2>&1 | grep "test result") 
r1=0; (cd /repo && bash $d/demo.sh >/tmp/seed/d0.log 2>&1) || r1=$?
r2=0; (cd $s/repo && bash $d/demo.sh >/tmp/seed/d1.log 2>&1) || r2=$?
echo "$id unchanged rc=$r1 patched rc=$r2"; tail -3 /tmp/seed/d0.log; tail -3 /tmp/seed/d1.log
git -C $s/repo checkout -q -- .
[ $r1 = 0 ] && [ $r2 != 0 ] && [ $r2 != 9 ] || { echo "NOT VALID"; exit 1; }
