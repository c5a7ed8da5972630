#!/bin/bash
# exit 0 on the unchanged tree, non-zero with the patch
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
