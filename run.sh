#!/bin/bash
# run.sh <property id> [--replay FILE]     tier and seed from VERIF_TIER / VERIF_SEED
# Runs the monitors of one property against the working tree of /repo.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg LC_ALL=C.UTF-8 PIP_NO_INDEX=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset CONDA_PREFIX PYTHONPATH
export PYTHONPATH="${VMON_REPO:-/repo}/src:$here"
exec /opt/venv/bin/python -W ignore -m vmon "$@"
