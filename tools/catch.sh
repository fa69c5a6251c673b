#!/bin/bash
# development tool: run the check of each planted bug's property against it
cd "$(dirname "$0")/.."
for d in ${@:-seeded/*}; do d=seeded/$(basename $d)
 p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo apply $PWD/$d/patch.diff || { echo "$d NOAPPLY"; continue; }
 python3 vp.py check $p > /tmp/catch.out 2>&1; rc=$?
 git -C /repo checkout -- .
 echo "$(basename $d) $p rc=$rc $(grep -c ^VIOLATION /tmp/catch.out) $(grep -m1 -A1 ^VIOLATION /tmp/catch.out | tr '\n' ' ' | cut -c1-200)"
done
