#!/bin/sh
# Nothing to build ahead of time: every check compiles the current tree itself.
set -e
cd "$(dirname "$0")"
gcc -O2 -shared -fPIC -o /dev/null sim/nbsim.c -lm
/opt/venv/bin/python -c "import numba, numpy, scipy, dask"
mkdir -p evidence replays
