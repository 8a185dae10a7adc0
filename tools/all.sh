#!/bin/bash
# every unit on the current tree: all must be proved, nothing lost or refused
cd "$(dirname "$0")/.." && rc=0
for f in specs/*.vx; do
	u=$(basename $f .vx); grep -q "fn main" $f || continue
	r=$(bash tools/v.sh $u 2>&1 | grep -E 'verification results|^LOST|aborting' | tr '\n' ' ')
	echo "$u $r"; case "$r" in *" 0 errors "*) ;; *) rc=1;; esac; case "$r" in *LOST*|*aborting*) rc=1;; esac
done
exit $rc
