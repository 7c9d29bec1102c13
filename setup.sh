#!/bin/bash
# nothing is built: the checks import /repo's working tree; this only confirms that the pieces are present
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
mkdir -p evidence replays
exec /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
import reagent_compat, torch
from symex.z3load import z3
print('torch', torch.__version__, 'z3', z3.get_version_string())"
