#!/bin/bash
# Build the extensions of /repo if their text changed, and import the package once.
cd "$(dirname "$0")" || exit 2
. lib/env.sh
export PYTHONPATH="$PWD/lib:$PWD/checks"
python lib/ext.py || exit 1
cd /tmp && python -c "import dedalus.public, refcalc, geoms"
