#!/bin/bash
# usage: run.sh PROPERTY quick|thorough   (exit 0 held, 1 violation, 2 inconclusive)
cd "$(dirname "$0")" || exit 2
unset PYTHONPATH
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
# stale bytecode must not stand in for changed source
find /repo/menpofit -name __pycache__ -prune -exec rm -rf {} + 2>/dev/null
exec /opt/venv/bin/python -W ignore -m mon.run "$1" "$2"
