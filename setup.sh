#!/bin/bash
# Nothing is kept between runs: every check builds what it needs from /repo into
# its own scratch directory.  This only verifies that the tools are there.
set -e
cd "$(dirname "$0")"
/opt/venv/bin/python -c "import numpy, scipy, fitsio, healsparse, hpgeom, esutil, yaml"
gcc --version >/dev/null
gcc -print-file-name=libasan.so >/dev/null
mkdir -p evidence
echo ok
