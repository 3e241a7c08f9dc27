#!/bin/bash
# nothing to build: verifies that the two interpreters are usable
set -e
python3-vt -c "import z3, cvc5; print('z3', z3.get_version_string())"
/opt/venv/bin/python -c "import numpy, pandas, scipy; print('pandas', pandas.__version__)"
mkdir -p /verif/evidence
