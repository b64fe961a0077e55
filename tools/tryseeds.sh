#!/bin/bash
# Apply each planted change in turn, run its property's check, undo. Usage: tryseeds.sh [id-prefix...]
cd /verif
for s in seeded/*; do id=$(basename $s); p=${id%%-*}
 if [ $# -gt 0 ]; then m=0; for a in "$@"; do [[ $id == $a* ]] && m=1; done; [ $m = 1 ] || continue; fi
 git -C /repo apply /verif/$s/patch.diff || continue
 r=$(timeout 800 python3 check.py $p | grep -E "VIOLATION" | head -2); git -C /repo checkout -q -- .
 echo "$id: ${r:-MISSED}"
done
