#!/bin/bash
# bash /verif/run.sh C01 — runs one check on the working tree of /repo.
export LANG=C.UTF-8 LC_ALL=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export VERIF_PROCS="${VERIF_PROCS:-$(env -u OMP_NUM_THREADS nproc)}"
cd "$(dirname "$(readlink -f "$0")")" || exit 2
id=$(echo "${1:?usage: run.sh C01}" | tr 'A-Z' 'a-z')
exec /opt/venv/bin/python -m "checks.$id"
