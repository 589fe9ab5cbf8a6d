#!/bin/bash
# check.sh <property> <tier>: runs the check of one property against /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONHASHSEED=${PYTHONHASHSEED:-0}
unset PYTHONPATH
exec /opt/venv/bin/python -m pbt.run "$1" --tier "${2:-quick}" "${@:3}"
