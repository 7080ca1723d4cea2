#!/bin/bash
# nothing to build: the checks are Python and import the code from /repo's working tree
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
PYTHONPATH="$PWD:/repo" "$PY" -c "import mc.core, mc.ref, mc.heavy"
