#!/bin/bash
# bash check.sh PROPERTY [quick|thorough]: decides one property on /repo.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export MPLBACKEND=Agg MPLCONFIGDIR=/tmp
exec /opt/venv/bin/python symx/run.py "$1" --tier "${2:-${VERIF_TIER:-quick}}" "${@:3}"
