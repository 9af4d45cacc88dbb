#!/bin/bash
# runseed.sh [prefix...]
cd /verif/seeded
for d in */; do d=${d%/}
 if [ $# -gt 0 ]; then m=0; for p in "$@"; do [[ $d == $p* ]] && m=1; done; [ $m = 1 ] || continue; fi
 p=$(sed -n 's/.*"property": "\(.*\)".*/\1/p' $d/meta.json)
 git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
 s=$(date +%s)
 VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash /verif/check.sh $p > /tmp/rs.out 2>&1; rc=$?
 git -C /repo checkout -q -- .
 echo "$d $p rc=$rc $(($(date +%s)-s))s $(grep -A1 -m1 VIOLATION /tmp/rs.out | tail -1 | cut -c1-160) $( [ $rc = 1 ] || tail -2 /tmp/rs.out)"
done
git -C /repo status --short
