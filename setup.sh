#!/bin/bash
# Nothing to compile: verify that the interpreter, the package and Hypothesis import.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python -c "import vlib.env, hypothesis, seismic.correlate.correlate as c; print(hypothesis.__version__, c.__file__)"
