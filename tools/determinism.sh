#!/bin/bash
# the outcomes of a check are the same for any number of workers and any hash seed of the driver
cd "$(dirname "$0")/.." || exit 3
n=${1:-200}; rc=0
for i in 01 02 03 04 05 06 07 08 09 10 11 12 13 14; do
  a=$(SIM_WORKERS=1 ./check.sh C$i --runs $n --digest $n | tail -1)
  b=$(SIM_WORKERS=8 SIM_HASHSEED=5 ./check.sh C$i --runs $n --digest $n | tail -1)
  [ "$a" = "$b" ] && echo "C$i same: $a" || { echo "C$i DIFFERS: $a / $b"; rc=1; }
done
exit $rc
