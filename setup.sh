#!/bin/bash
# Nothing to build: checks import /repo's working tree. Verify the tools exist.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, '.')
from vp import core
import hypothesis
print('hypothesis', hypothesis.__version__)
P
