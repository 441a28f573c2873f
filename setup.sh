#!/bin/bash
# Everything is interpreted or rebuilt by the checks themselves; only look that the tools are there.
cd "$(dirname "$0")" || exit 1
for f in /opt/venv/bin/python /opt/veriftools/tla/tla2tools.jar /opt/veriftools/tla/CommunityModules-deps.jar; do
    [ -e "$f" ] || { echo "missing $f"; exit 1; }
done
command -v java >/dev/null && command -v g++ >/dev/null || { echo "missing java or g++"; exit 1; }
mkdir -p evidence
