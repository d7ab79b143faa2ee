#!/bin/bash
# run with the repository as current directory
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here" MPLBACKEND=Agg PATH=/opt/venv/bin:$PATH
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$here/demo.py"
