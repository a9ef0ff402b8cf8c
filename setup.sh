#!/bin/sh
# nothing to build: the checks import the library from /repo's working tree.
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo'); import gemd, mc.core"
