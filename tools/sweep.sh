#!/bin/bash
# sweep.sh "C01 C02 ..." FIRST LAST [tier]: run checks over many seeds, print failures only
cd "$(dirname "$0")/.." || exit 2
for c in $1; do for s in $(seq "$2" "$3"); do
  out=$(./run.sh "$c" --seed "$s" --tier "${4:-quick}" 2>&1); rc=$?
  if [ $rc -ne 0 ]; then echo "== $c seed $s rc=$rc"; echo "$out" | head -30; fi
done; done; echo "sweep done: $1 $2..$3"
