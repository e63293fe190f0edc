#!/bin/sh
# nothing to build: verifies that the two interpreters and the solvers the checks use are present
set -e
cd "$(dirname "$0")"
python3-vt -c "import z3, cvc5, numpy"
MPLBACKEND=Agg /opt/venv/bin/python -c "import numpy, scipy"
mkdir -p evidence
