#!/bin/bash
# check.sh PROPERTY [quick|thorough] : decides one property of /repo's working tree by simulation.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" PYTHONHASHSEED=0
exec /opt/venv/bin/python -X utf8 -m fogsim.runner "$@"
