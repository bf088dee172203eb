#!/bin/bash
# run.sh <property id> [quick|thorough] [--replay FILE]
# Runs one runtime monitor against the current working tree of /repo.
set -u
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PY=${PY:-/opt/venv/bin/python}
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
exec "$PY" -B checks/run.py "$@"
