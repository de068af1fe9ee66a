#!/bin/bash
# bash check.sh <property> <quick|thorough> [--replay FILE]
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONWARNINGS=ignore
unset PYTHONPATH
exec /opt/venv/bin/python -m vlib.run "$@"
