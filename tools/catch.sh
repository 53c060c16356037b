#!/bin/bash
# tools/catch.sh [ID...]  - which planted bugs does the check of their property catch?
# tools/catch.sh -a ID    - run every check against the planted bug
all=0; [ "$1" = -a ] && { all=1; shift; }
[ $# = 0 ] && set -- $(ls /verif/seeded)
for id; do
  t=$(mktemp -d /tmp/catch.XXXXXX); git clone -q /repo $t/repo
  git -C $t/repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; rm -rf "$t"; continue; }
  if [ $all = 1 ]; then cs=$(seq -f 'C%02g' 1 ${NCHECKS:-24}); else cs=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])"); fi
  for c in $cs; do
    s=$(date +%s)
    MC_EVIDENCE=$t/ev AITISA_REPO=$t/repo timeout 900 /verif/check $c > $t/out 2>&1; rc=$?
    echo "$id $c rc=$rc $(($(date +%s)-s))s $(grep -h VIOLATION -B2 $t/out | head -3 | tr '\n' ' ' | cut -c1-240)"
  done
  rm -rf "$t"
done
