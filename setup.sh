#!/bin/bash
# Nothing is compiled: checks that the interpreter, the solvers and the library are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, cvc5, jaxfg
print('z3', z3.get_version_string(), 'cvc5', cvc5.__version__)
"
