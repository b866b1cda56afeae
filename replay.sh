#!/bin/bash
# replay.sh FILE : re-executes a recorded violation; exit 1 and its description if it reproduces, 0 if not.
D="$(cd "$(dirname "$0")" && pwd)"
F="$(realpath "$1")"
cd "$D" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$D"
exec /opt/venv/bin/python -X utf8 -m fogsim.replay "$F"
