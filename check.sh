#!/bin/bash
# check.sh <ID> [quick|thorough] [--replay FILE]: decide one property on /repo's working tree
cd "$(dirname "$0")" || exit 2
unset PYTHONPATH PYTHONPYCACHEPREFIX
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONNOUSERSITE=1
exec /opt/venv/bin/python -W ignore pbt/run.py "$@"
