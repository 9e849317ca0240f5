#!/bin/bash
# Nothing to build: the checks are Python and import the code of /repo. Tells early if something is missing
cd "$(dirname "$0")" && mkdir -p evidence && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c '
from pbt import core
core.setup_paths()
import hypothesis, capstone, constraint, bitarray, pygraph
print("hypothesis", hypothesis.__version__)'
