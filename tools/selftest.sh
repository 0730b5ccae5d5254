#!/bin/bash
# Engine validation: the repository's own tests, executed through the symbolic stand-ins with concrete values.
cd "$(dirname "$0")/.."
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export PYTHONPATH=$PWD SX_TESTS=/repo/tests PYTHONPYCACHEPREFIX=$T/pyc PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=$T/mpl NUMBA_CACHE_DIR=$T/numba
/opt/venv/bin/python -m pytest -p sx.selftest_plugin --assert=plain --import-mode=importlib -p no:cacheprovider -q --rootdir=/repo /repo/tests "$@"
