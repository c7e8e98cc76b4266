#!/bin/bash
# nothing to compile: the checks import agnpy from /repo's working tree
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
mkdir -p evidence replays
MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "
import sys; sys.path.insert(0, '/repo')
import agnpy, numpy, scipy, astropy; print('agnpy from', agnpy.__file__)"
