#!/bin/bash
# Nothing is compiled: the checks run /repo's Python source directly.  This
# verifies that the interpreter and the solvers are usable.
cd "$(dirname "$0")"
mkdir -p evidence/replay
PYTHONPATH=/repo /opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, cvc5, xarray, numpy
s = z3.Solver(); x = z3.Int('x'); s.add(x > x); assert s.check() == z3.unsat
print('ok', z3.get_version_string(), xarray.__version__)"
