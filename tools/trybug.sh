#!/bin/bash
# trybug.sh ID [CHECK]: runs the check against the planted bug in /repo's working tree and undoes it
set -u
d=/verif/seeded/$1
c=${2:-$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
git -C /repo apply $d/patch.diff || exit 2
cd /verif && python3-vt run.py $c > /tmp/trybug.$1.out 2>&1; rc=$?
git -C /repo checkout -- .
echo "$1 $c rc=$rc $(grep -c ^VIOLATION /tmp/trybug.$1.out) violations: $(grep -m1 ^VIOLATION /tmp/trybug.$1.out)"
