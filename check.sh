#!/bin/bash
# check.sh <PROPERTY> [quick|thorough] [--replay FILE]: decide one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
ID=$1; shift
if [ "$1" = quick ] || [ "$1" = thorough ]; then export VERIF_TIER=$1; shift; fi
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC MPLBACKEND=Agg
export MPLCONFIGDIR=${MPLCONFIGDIR:-/root/.cache/matplotlib}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH=${MC_REPO:-/repo}:$PWD
exec /opt/venv/bin/python -W ignore -m mc.run "$ID" "$@"
