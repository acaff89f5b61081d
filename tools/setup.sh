#!/bin/bash
# nothing to install: the checks build what they need from /repo and run TLC on the committed specification
set -e
cd "$(dirname "$0")/.."
g++ --version | head -1
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
for m in spec/*.tla; do test -s "$m"; done
python3 -c 'import sys; sys.path[:0] = ["tools", "corpus"]; import vlib, gram, gramrun, props'
echo ready
