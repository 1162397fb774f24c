#!/bin/sh
# nothing to build: the checks are Python and use /repo's working tree; fail early if it cannot be imported
cd "$(dirname "$0")" || exit 1
PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -c "import sys; sys.path.insert(0, '/repo'); import tealish, mc.avm, mc.ref, mc.h"
