#!/bin/bash
# suite.sh ID: the repository's tests on a scratch copy with the planted bug applied
set -u
T=/tmp/suite-$1; rm -rf "$T"; mkdir "$T"; cp -a ${R:-/repo} "$T/repo"
[ "$1" = HEAD ] || git -C "$T/repo" apply /verif/seeded/$1/patch.diff || exit 2
sed "s#/repo#$T/repo#g" /opt/vp/error_messages.py > "$T/error_messages.py"
sed -e "s#/repo#$T/repo#g" -e "s#/opt/vp/error_messages.py#$T/error_messages.py#" /opt/vp/test.sh > "$T/test.sh"
timeout 900 bash "$T/test.sh" "$T/out.json" > "$T/log" 2>&1
python3 - "$T/out.json" $1 <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
bad=[t for t in b if t not in o['passed']]
print('SUITE', sys.argv[2], len(o['passed']), 'missing', bad[:6])
P
rm -rf "$T"
