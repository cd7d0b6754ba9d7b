#!/bin/bash
# try.sh SEED [tier]: runs the property's check against the seeded change, then undoes it
s=/verif/seeded/$1; id=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
git -C /repo apply $s/patch.diff || exit 2
timeout 900 bash /verif/run.sh ${3:-$id} ${2:-quick} > /tmp/try.$1.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$1 $id rc=$rc $(grep -m1 -E 'VIOLATION|INCONCL' /tmp/try.$1.log)"
