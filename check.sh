#!/bin/bash
# usage: check.sh <property> <quick|thorough>
cd "$(dirname "$0")"
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -m sx.run "$@"
