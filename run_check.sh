#!/bin/bash
# usage: ./run_check.sh PROPERTY [-v] [--case SUBSTRING] | --replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=${MPLCONFIGDIR:-/opt/mplconfig}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
PY=/opt/venv/bin/python
if [ "$1" = "--replay" ]; then
    exec $PY -W ignore -m symx.replay "$2"
fi
exec $PY -W ignore -m symx.runner "$@"
