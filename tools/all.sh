#!/bin/bash
# all.sh [TIER] [IDS...]: runs the checks one after another and prints one line for each
cd "$(dirname "$0")/.." || exit 2
T=${1:-quick}; shift
IDS=${*:-$(python3 -c "import sys; sys.path.insert(0,'checks'); from props import PROPS; print(' '.join(sorted(PROPS)))")}
for i in $IDS; do python3 checks/check.py $i $T > build/out-$i.txt 2>&1; rc=$?; echo "$i rc=$rc $(grep -m1 -E '^C[0-9]+:' build/out-$i.txt)"; [ $rc = 0 ] || tail -25 build/out-$i.txt; done
