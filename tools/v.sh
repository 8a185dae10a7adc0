#!/bin/bash
# runs one unit by hand: tools/v.sh UNIT [verus options]
cd "$(dirname "$0")/.." && u=$1 && shift
mkdir -p build/units
./build/vx/release/vx specs/$u.vx ${VERIF_REPO:-/repo} build/units/$u.rs | python3 -c '
import json,sys
for f in json.load(sys.stdin):
    if f["lost"]: print("LOST", f["key"], f["lost"])'
verus build/units/$u.rs --triggers-mode silent --multiple-errors ${ME:-4} --num-threads 8 "$@" 2>&1
