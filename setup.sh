#!/bin/bash
# nothing to compile: verify that the interpreter and the code under test load
set -e
cd "$(dirname "$0")"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PY=${PY:-/opt/venv/bin/python}
mkdir -p evidence/replay
"$PY" -B -c "import sys; sys.path.insert(0,'/repo/src'); import numpy, scipy, bitstruct, cssrlib.gnss"
