#!/bin/bash
# nothing to install: the checks need only the pre-installed TLC, node, gcc and python3
set -e
java -version >/dev/null 2>&1
node --version >/dev/null
python3 -c 'import json, subprocess'
test -f /opt/veriftools/tla/tla2tools.jar
