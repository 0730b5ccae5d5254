#!/bin/bash
# re-run a recorded counterexample against the package in /repo
cd "$(dirname "$0")/.."
F=$(realpath "$1"); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
PYTHONPATH=${VERIF_REPO:-/repo}:$PWD NUMBA_CACHE_DIR=$T PYTHONPYCACHEPREFIX=$T/pyc MPLBACKEND=Agg MPLCONFIGDIR=$T/mpl /opt/venv/bin/python -m sx.replay "$F"
