#!/bin/sh
# The repository's own solver tests against the stand-in libraries.
# test_MLP expects one of several optimal plans and is the only one that may differ.
here="$(dirname "$(dirname "$(readlink -f "$0")")")"
cd /repo/railway_solvers || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here/sim/stubs" \
  /opt/venv/bin/python -m pytest -q -p no:cacheprovider --deselect test/test_linear_solver.py::test_MLP
