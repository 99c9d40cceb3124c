#!/bin/bash
# Nothing to build: the checks import /repo's working tree directly.
cd "$(dirname "$0")" || exit 1
export OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
"$PY" - <<'P' || exit 1
import sys
assert sys.version_info >= (3, 12), 'sys.monitoring is required'
import dst.env, numpy, scipy, dst.world
print('python', sys.version.split()[0], 'numpy', numpy.__version__, 'scipy', scipy.__version__)
P
mkdir -p evidence replays
