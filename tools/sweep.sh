#!/bin/bash
# run the given checks over several seeds on the current tree; print alarms
# usage: sweep.sh "C01 C02" "1 2 3"
cd "$(dirname "$0")/.."
for p in $1; do for s in $2; do
  o=$(python3 run.py $p --seed $s 2>&1); rc=$?
  [ $rc = 0 ] || { echo "== $p seed $s rc=$rc"; echo "$o" | cut -c1-1200 | head -30; }
done; done
