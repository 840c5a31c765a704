#!/bin/bash
# seeds.sh "C01 C02" "1 2 3" [check.sh args]: the checks under other seeds, looking for false alarms
cd "$(dirname "$0")/.."
P=$1; S=$2; shift 2
for p in $P; do for s in $S; do
  ./check.sh $p --seed $s "$@" 2>&1 | grep -E "evaluations|VIOL|^  " | tail -8 | cut -c1-500 | sed "s/^/[$s] /"
done; done
