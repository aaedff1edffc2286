#!/bin/sh
# Nothing to build: the checks are Python and re-encode /repo's working tree on every run. This only verifies the tools.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
from lib import env, symcore
import z3, casadi; print('z3', z3.get_version_string(), 'casadi', casadi.__version__)"
