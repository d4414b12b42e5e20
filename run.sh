#!/bin/bash
# run.sh <PROPERTY> quick|thorough     explore one property against /repo's working tree
# run.sh --replay <file>               re-execute one recorded counterexample, no explorer
cd "$(dirname "$0")" || exit 2
unset DISPLAY
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg QT_QPA_PLATFORM=offscreen
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 OPENBLAS_CORETYPE=Haswell PYTHONHASHSEED=0
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -W ignore -m mc.core "$@"
