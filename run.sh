#!/bin/bash
# run.sh <property id> [--tier quick|thorough] [--replay file]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PATH=/opt/venv/bin:$PATH PYTHONHASHSEED=0 PYTHONPATH="${RMTOOLS_REPO:-/repo}"
pid="$1"; shift
exec /opt/venv/bin/python -W ignore "$here/checks/$pid.py" "$@"
