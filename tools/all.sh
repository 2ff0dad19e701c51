#!/bin/bash
# all.sh [Cxx...]: every check, a line each
cd "$(dirname "$0")/.."
for c in ${@:-$(ls checks/c[0-9]*.py | sed 's#.*/c\(..\).py#C\1#')}; do
  out=$(python3-vt run.py $c 2>&1); rc=$?
  echo "$c rc=$rc $(echo "$out" | grep -E "contracts proved" | tail -1)"
  echo "$out" | grep -E "unsupported|refuted|skipped|VIOLATION|KNOWN" | cut -c1-220
done
