#!/bin/bash
# run.sh <property> [replay FILE]: run one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
exec "${PYZWAVE_PYTHON:-/opt/venv/bin/python}" run.py "$@"
