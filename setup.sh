#!/bin/bash
# Nothing to compile: the explorer is plain Python and imports pygsp from /repo.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence/replays
PY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3
PYTHONDONTWRITEBYTECODE=1 "$PY" -c "import sys; sys.path.insert(0, '/repo'); import numpy, scipy, networkx, pygsp; print(pygsp.__file__)"
