#!/bin/bash
# Nothing to build: check that the toolchain and the package are there.
set -e
cd "$(dirname "$0")"
java -cp /opt/veriftools/tla/tla2tools.jar tlc2.TLC -h >/dev/null 2>&1 || true
test -f /opt/veriftools/tla/tla2tools.jar
test -f /opt/veriftools/tla/CommunityModules-deps.jar
PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/opt/vp/no-pycache PYTHONPATH=/repo /opt/venv/bin/python -W ignore -c 'import metaknowledge, sys; assert metaknowledge.__file__.startswith("/repo/")'
mkdir -p evidence
echo setup ok
