#!/bin/bash
# nothing to build: checks that the interpreters used by the checks exist
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3, ast'
/opt/venv/bin/python -c 'import numpy'
python3 - <<'Q'
import ast, glob
for f in glob.glob('engine/**/*.py', recursive=True) + glob.glob('harness/*.py'):
    ast.parse(open(f).read(), f)
Q
echo setup ok
