#!/bin/bash
# nothing to build: the verification-condition generator is Python and reads /repo's source on every run
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import pyvc, z3; print('z3', z3.get_version_string())"
