#!/bin/bash
# check.sh <ID> quick|thorough|replay [FILE]
here=$(cd "$(dirname "$0")" && pwd)
unset PYTHONPATH PYTHONHOME
export MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 OIL_DEBUG_COMPONENT=0
export VERIF_REPO=${VERIF_REPO:-/repo}
exec /opt/venv/bin/python "$here/lib/main.py" "$@"
