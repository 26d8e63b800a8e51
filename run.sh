#!/bin/bash
# usage: ./run.sh C01 [quick|thorough] [family ...]   |   ./run.sh --replay FILE
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/verif-pyc PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONNOUSERSITE=1
unset PYTHONPATH
cd "$here" && exec /opt/venv/bin/python -B vlib/run.py "$@"
