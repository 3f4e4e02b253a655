#!/bin/bash
# nothing to install: every check builds its driver from /repo's working tree. Checks that the tools are there.
set -e
cd "$(dirname "$0")/.."
for t in g++ make tlc python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
mkdir -p evidence
