#!/bin/bash
# Nothing to build beyond the system itself; checks that the tools are there.
set -e
cd "$(dirname "$0")"
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
bash /opt/vp/build.sh >/dev/null
