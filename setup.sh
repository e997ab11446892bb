#!/bin/bash
# Nothing to build: the checks run the Python package in /repo/src directly.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
PYTHONPATH=/repo/src:. exec /opt/venv/bin/python -c "import mc.core, numpy, scipy; print('ready')"
