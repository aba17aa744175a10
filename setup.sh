#!/bin/bash
# nothing is built ahead of time: every check compiles /repo's current sources itself
cd "$(dirname "$0")" || exit 1
python3-vt - <<'PY'
import sys, compileall
sys.path.insert(0, ".")
import z3
from vc import terms, lin, ir, exec, engine, induct, intrin, build, harness, check, replay
print("verifier loads; z3", z3.get_version_string())
PY
