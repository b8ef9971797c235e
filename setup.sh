#!/bin/bash
# Nothing to compile: check that the interpreters and solvers the checks use are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
/opt/veriftools/pyvenv/bin/python -c "import z3, cvc5, numpy; import pyvc.run" || exit 1
/opt/venv/bin/python -c "import numpy, scipy" || exit 1
echo ok
