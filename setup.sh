#!/bin/bash
# Nothing to compile: the checks are Python and import skada from /repo's working tree.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence/replay
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:/repo" /opt/venv/bin/python - <<'P'
import skada, torch, skorch, sklearn, ot
print("skada", skada.__version__, "from", skada.__file__, "torch", torch.__version__)
P
