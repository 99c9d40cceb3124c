#!/bin/bash
# usage: bash run.sh ID quick|thorough   (run in /verif)
cd "$(dirname "$0")" || exit 2
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=0 PYTHONPATH="$PWD" HOME="${HOME:-/root}"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m dst.check "$1" "$2"
