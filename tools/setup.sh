#!/bin/bash
# Nothing to build in advance: checks build from /repo and run TLC. Only verify that the tools are there.
set -e
cd "$(dirname "$0")/.."
for t in java gcc g++ clang python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
test -f /opt/veriftools/tla/tla2tools.jar
python3 -B -c 'from vf import checks; print(len(checks.CHECKS), "checks")'
