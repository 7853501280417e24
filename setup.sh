#!/bin/sh
# Nothing to build: the checks compile what they need. Checks the tools are there.
set -e
cd "$(dirname "$0")"
for t in cbmc goto-cc goto-instrument gcc z3 python3; do
    command -v $t > /dev/null || { echo "missing tool $t"; exit 1; }
done
python3 -c "import jobs; print(len(jobs.PROPS), 'properties')"
mkdir -p evidence
