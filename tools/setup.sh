#!/bin/sh
# Nothing to build: Python and TLA+ are interpreted. Check that the tools are there.
set -e
/opt/venv/bin/python -c 'import cocotb'
java -version 2>/dev/null || exit 1
test -f /opt/veriftools/tla/tla2tools.jar
