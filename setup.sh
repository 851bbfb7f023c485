#!/bin/bash
# Nothing to build: the checks run the Python code of /repo directly. Verify that it can be imported.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=/repo:$PWD /opt/venv/bin/python -W ignore -c "import timeseria, mc.core, mc.lib; print('setup ok')"
