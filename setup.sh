#!/bin/bash
# Nothing to build: the checks are pure Python. Makes sure what they need is
# here.
set -e
cd "$(dirname "$(readlink -f "$0")")"
mkdir -p evidence replays
exec /opt/venv/bin/python - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, 'pbt')
import core
print('hypothesis', core.hypothesis.__version__)
P
