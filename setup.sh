#!/bin/sh
# Nothing to build: the checks import ndspy straight from /repo. This only
# makes sure that the tools they need are there.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/verif:/repo python3-vt - <<'PY'
import hypothesis, ndspy
assert ndspy.__file__.startswith('/repo/'), ndspy.__file__
import vh.core, vh.main
vh.main.load_all()
print('setup ok: hypothesis', hypothesis.__version__)
PY
