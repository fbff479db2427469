#!/bin/bash
# run.sh <ID> quick|thorough  |  run.sh --replay <file>
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore lib/run.py "$@"
