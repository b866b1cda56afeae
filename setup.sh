#!/bin/bash
# Nothing to download or install: checks that what the simulator needs is there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -X utf8 -c "
import sys
assert sys.version_info >= (3, 12)
import numpy, dill, networkx, unidecode, phylactery, Levenshtein, Cython
from fogsim import world
world.install()
print('fogsim ready')"
