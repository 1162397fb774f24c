#!/bin/bash
# run with cwd = the repository, after its build
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec "$PY" "$(dirname "$0")/demo.py"
