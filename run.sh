#!/bin/sh
# run.sh <property> [quick|thorough]     run.sh replay <file>
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache PYTHONHASHSEED=0
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONPATH=
export PYPY_GC_NURSERY=1M
unset PYTHONSTARTUP PYTHONWARNINGS PYTHONDEBUG
exec /opt/pypyenv/bin/python --jit off -m sim.driver "$@"
