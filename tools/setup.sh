#!/bin/bash
# Nothing to build: the checks run TLC and the interpreter directly.  Only checks that the tools are there.
set -e
cd "$(dirname "$0")/.."
test -x /opt/venv/bin/python
java -version 2>/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
chmod +x check.py
mkdir -p evidence
