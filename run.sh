#!/bin/bash
# run.sh Cnn [quick|thorough]   or   run.sh replay FILE
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC
export NUMBA_NUM_THREADS=1 NUMBA_THREADING_LAYER=workqueue OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -m mc "$@"
