#!/bin/bash
# Nothing is compiled: the checks interpret TLA+ with TLC and run /repo's Python sources directly. Verify the tools are there.
set -e
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
/opt/venv/bin/python -B -c "import skdecide" 
mkdir -p evidence replays
echo setup ok
