#!/bin/bash
# run.sh PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]
# Runs one check against the working tree in /repo (pure Python: imported from there).
cd "$(dirname "$0")" || exit 2
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 CUDA_VISIBLE_DEVICES= PYTHONPYCACHEPREFIX=
export PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m vf "$@"
