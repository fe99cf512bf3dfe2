#!/bin/bash
# The checks build what they need themselves; this only makes sure that the tools they use are there.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p evidence
exec /opt/venv/bin/python -B -c '
import numpy, scipy, pandas, xarray, dask, Cython, pyresample
import shutil, json
assert shutil.which("gcc")
json.load(open("MANIFEST.json"))
print("ok")'
