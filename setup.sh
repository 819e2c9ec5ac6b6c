#!/bin/bash
# Nothing to build: checks that the tools the monitors need are there and that the package imports.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c '
import sys
sys.path.insert(0, ".")
import numpy, pandas, scipy
from mon import core
core.install()
print("monitors installed")'
