#!/bin/bash
# Typecheck the specification and run its self-tests (published vectors).
cd "$(dirname "$0")/spec" || exit 1
set -e
mkdir -p ../evidence ../out
for f in *.qnt; do echo "$f"; done | xargs -P 6 -I{} sh -c 'quint typecheck {} > /dev/null || { echo "{} does not typecheck"; exit 255; }'
quint test selftest.qnt --match Test
quint test params.qnt --match Test
python3 -m py_compile ../check.py ../vf/*.py
# the interpreter that runs the code under test
/usr/bin/jython -B -Dpython.cachedir.skip=true -c 'print "jython runs"'
