#!/bin/bash
# Nothing is built: the checks import the code from /repo/src. Verifies the interpreter.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c 'import sys, odict, plumber, zope.interface; sys.monitoring; print("ok")'
