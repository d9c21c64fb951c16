#!/bin/bash
# run.sh PROPERTY [quick|thorough]   or   run.sh --replay FILE
cd "$(dirname "$0")"
export PYTHONPATH="${VERIF_REPO:-/repo}:$PWD" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec /opt/veriftools/pyvenv/bin/python -m vd.run "$@"
