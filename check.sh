#!/bin/bash
# check.sh C01 [quick|thorough]   - runs one check against /repo's working tree
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 TZ=UTC LC_ALL=C.UTF-8
export PYTHONPYCACHEPREFIX=/nonexistent-pycache-prefix
unset PYTHONPATH PYTHONHOME
exec /opt/venv/bin/python -m mc "$@"
