#!/bin/bash
# build what the checks need from the committed files; checks rebuild the shim themselves
set -e
cd "$(dirname "$0")"
t=$(mktemp -d)
gcc -O2 -fPIC -shared -o "$t/shim.so" sim/shim.c -ldl
/opt/venv/bin/python - <<'PY'
import ast, glob
for f in glob.glob("sim/*.py"):
    ast.parse(open(f).read(), f)
PY
/opt/venv/bin/python -c "import numpy, xarray, netCDF4, hatanaka, ncompress"
case "$t" in /tmp/?*) rm -r "$t" ;; esac
mkdir -p evidence
echo setup ok
