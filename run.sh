#!/bin/bash
# usage: run.sh CNN [check options]   -- runs one property's check against /repo
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 LANG=C.UTF-8 TZ=UTC
unset PYTHONPATH PYTHONSTARTUP PYTHONWARNINGS
cmd=check
case "$1" in replay|one|selftest) cmd=$1; shift;; esac
exec /opt/venv/bin/python -m simcalk "$cmd" "$@"
