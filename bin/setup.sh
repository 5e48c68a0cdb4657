#!/bin/bash
# Nothing to build: the framework is Python run from source. Check that the tools are there.
set -e
cd "$(dirname "$0")/.."
/opt/venv/bin/python - <<'PY'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, numpy, pandas, networkx
print('z3', z3.get_version_string(), 'numpy', numpy.__version__)
PY
