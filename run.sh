#!/bin/bash
# usage: ./run.sh <PROPERTY> [--tier quick|thorough] [--replay FILE] [--only REGEX] [-v]
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export PYTHONPATH="${PV_REPO:-/repo}/lib:$PWD"
exec /opt/venv/bin/python -m pv.runner "$@"
