#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   |   check.sh --replay FILE
cd "$(dirname "$0")" || exit 2
export VERIF_REPO="${VERIF_REPO:-/repo}"
export TZ=EST5EDT,M3.2.0,M11.1.0
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$VERIF_REPO"
exec /opt/venv/bin/python harness/run.py "$@"
