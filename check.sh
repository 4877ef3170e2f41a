#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [--replay FILE] ...
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/nocache PYTHONHASHSEED=0 PIP_NO_INDEX=1
PY=/opt/venv/bin/python
exec "$PY" -W ignore lib/rt.py "$@"
