#!/bin/bash
# Builds everything the checks need and tests the arithmetic used by TLC.
set -eo pipefail
cd "$(dirname "$0")/.."
/opt/boozenv/bin/python -B harness/build.py
cd spec
meta=$(mktemp -d)
../bin/tlc.sh -config RealSelfTest.cfg -metadir "$meta" RealSelfTest.tla > ../.work/selftest.log 2>&1 || { tail -30 ../.work/selftest.log; rm -rf "$meta"; exit 1; }
rm -rf "$meta"
grep -q 'No error has been found' ../.work/selftest.log
echo "setup done"
