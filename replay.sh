#!/bin/bash
# usage: replay.sh FILE   (the path printed on a VIOLATION line)
f=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
unset PYTHONPATH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore -m mon.replay "$f"
