#!/bin/bash
# Nothing to build: the checks run the specification with the installed TLC and import
# the library from /repo.  Only verify that the tools are there.
set -e
cd "$(dirname "$0")"
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c 'import numpy, scipy, sympy'
mkdir -p evidence
