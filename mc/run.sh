#!/bin/bash
# usage: run.sh P01 | run.sh replay FILE
cd "$(dirname "$0")/.." || exit 2
export HOME="${HOME:-/root}" LANG=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 \
  OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONWARNINGS=ignore \
  PYTHONPATH="$PWD:${SKADA_REPO:-/repo}"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
exec "$PY" -m mc.core "$@"
