#!/bin/bash
# Nothing is built ahead of a check: TLC and the Python environment are there.
cd "$(dirname "$0")" || exit 1
[ -f /opt/veriftools/tla/tla2tools.jar ] && /opt/venv/bin/python -c 'import numpy, scipy, h5py' && java -version >/dev/null 2>&1
