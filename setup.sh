#!/bin/sh
# tools used by the checks must be there; every check builds the library and drivers from /repo itself
set -e
java -version >/dev/null 2>&1
test -r /opt/veriftools/tla/tla2tools.jar
command -v ninja >/dev/null
cd "$(dirname "$0")"
mkdir -p .build evidence
