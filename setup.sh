#!/bin/bash
# Nothing to build: the simulator is pure Python and the product is imported from /repo's working tree.
cd "$(dirname "$(readlink -f "$0")")"
export PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence replays
exec /opt/venv/bin/python -c "import ast,glob,sys; [ast.parse(open(f).read()) for f in glob.glob('dst/*.py')+glob.glob('checks/*.py')]; import numpy, h5py, rich; print('setup ok')"
