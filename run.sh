#!/bin/bash
# usage: bash run.sh PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]
# Runs one check against the working tree of /repo (or of $RV_REPO).
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
repo="${RV_REPO:-/repo}"
export PYTHONPATH="$here:$repo" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONWARNINGS=ignore MPLBACKEND=Agg PYTHONUNBUFFERED=1
cd "$here" || exit 3
exec /opt/venv/bin/python -m rv "$@"
