#!/bin/sh
# Nothing to build; make sure that the tools are there.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -B -c "import numpy, scipy.io, h5py, asciitree" || exit 1
