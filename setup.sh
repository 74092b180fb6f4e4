#!/bin/bash
# Nothing to build: checks import /repo/trunk directly.  Confirms the interpreter and libraries are usable.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python - <<'PY'
from lib.boot import boot
boot()
import hypothesis, numpy, scipy
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'scipy', scipy.__version__)
PY
