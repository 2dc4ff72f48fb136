#!/bin/bash
# Nothing to compile: check that the interpreter and the framework modules load offline.
set -eu
cd "$(dirname "$0")"
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 "$PY" -s -W ignore - <<'P'
import sys, glob, importlib
sys.path.insert(0, '.')
from vlib import core
for f in sorted(glob.glob('checks/c[0-9]*.py')):
    importlib.import_module('checks.' + f[7:-3])
core.import_repo()
print('ok')
P
