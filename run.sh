#!/bin/bash
# usage: run.sh CXX [--tier quick|thorough] [--replay FILE]
# Runs one runtime-monitoring check against /repo's working tree.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export HOME=${HOME:-/root} MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
unset PYTHONPATH
cd "$HERE" || exit 3
exec /opt/venv/bin/python -W ignore -m lib.harness "$@"
