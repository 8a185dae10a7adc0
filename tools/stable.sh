#!/bin/bash
# proofs must not depend on luck: every unit (or the units named) under several names, which changes the order and names the solver sees
cd "$(dirname "$0")/.." && us=${*:-$(ls build/units/*.rs | xargs -n1 basename | sed 's/\.rs$//' | grep -v _)}
mkdir -p build/stab
for u in $us; do for n in ${N:-1 22 333 22423 55555}; do
  cp build/units/$u.rs build/stab/${u}_$n.rs
  echo "$u $n $(cd build/stab; verus ${u}_$n.rs --triggers-mode silent --num-threads 8 2>&1 | grep -E 'results|-->' | tr '\n' ' ')"
  rm build/stab/${u}_$n.rs
done; done
