#!/bin/bash
# run every harness (four at a time); print the summary line of each, with its exit code
cd "$(dirname "$0")/.."
one() { p=$1; python3 check.py $p > /tmp/all.$p 2>&1; r=$?; echo "$(grep -o '^property.*: analysed\|[0-9]* obligations.*' /tmp/all.$p | tr '\n' ' ') exit $r"; }
export -f one
for f in ${@:-harness/C*.py}; do basename $f .py; done | xargs -P "${JOBS:-4}" -I{} bash -c 'one {}' | sort
