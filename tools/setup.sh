#!/bin/bash
# Nothing to build: the checks import /repo/src directly. Verify that the pieces are there.
cd "$(dirname "$0")/.." || exit 1
exec /opt/venv/bin/python -B -c "
import sys; sys.path.insert(0, '.')
from vlib.boot import boot; boot()
import hypothesis, numpy, pymgrid
print('hypothesis', hypothesis.__version__, 'pymgrid from', pymgrid.__file__)
"
