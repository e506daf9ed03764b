#!/bin/sh
# Nothing to compile: the simulator is Python and copies /repo's working tree
# at each run.  Verifies that the interpreter it needs is there.
set -e
cd "$(dirname "$0")"
test -f /usr/share/java/jython.jar
test -d /opt/pyamf-deps
python3 -c 'import json; json.load(open("MANIFEST.json"))'
echo ok
