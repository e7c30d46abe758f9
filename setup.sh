#!/bin/bash
# Nothing to install: checks use /opt/venv/bin/python and the system compiler.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -B -c 'import numpy, scipy, matplotlib; import xmon.monitor' || exit 1
g++ --version > /dev/null || exit 1
mkdir -p evidence
