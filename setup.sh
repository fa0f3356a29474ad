#!/bin/bash
# Nothing to build: the simulator is Python run by the interpreter that runs histbook. Check that both are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
t=$(mktemp -d /tmp/histbook-setup.XXXXXX)
PYTHONPYCACHEPREFIX=$t "${HISTBOOK_PYTHON:-/opt/venv-pypy/bin/python}" -W ignore -c 'import sys; sys.path.insert(0, "."); from sim import env; print("histbook from", env.histbook.__file__)'
rm -rf "$t"
