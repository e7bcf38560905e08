#!/bin/bash
# Nothing to build: checks that the harness and the code under observation import.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
mkdir -p evidence/replay
export PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -c 'from mon import repo, runner, gen, model; print("ready", repo.tc.__file__)'
