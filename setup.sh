#!/bin/bash
# Nothing has to be compiled: check that the interpreter and the package under test can be imported.
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="${MC_REPO:-/repo}:$PWD" /opt/venv/bin/python -W ignore -c "import numpy, scipy, igl, mc.core, rainbow.math.quaternion"
