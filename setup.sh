#!/bin/bash
# Nothing to build: the verifier is Python and reads /repo's source on every run. Check that it loads.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
python3-vt - <<'PY'
import z3
from pyvc import load, specs
L = load.Loaded()
s = specs.load_symbolic(L)
specs.load_concrete()
print("contracts:", len(s), "z3", z3.get_version_string())
PY
cvc5 --version | head -1
