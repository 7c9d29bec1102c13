#!/bin/bash
# check.sh <ID> <quick|thorough> [case]: decide one property against /repo's working tree
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
[ -n "$HZ_DEV_REPO" ] && export PYTHONPATH=$HZ_DEV_REPO:/opt/vp/compat   # development only: a scratch copy of the repository
export PYTHONDONTWRITEBYTECODE=1 PYTORCH_JIT=0 OMP_NUM_THREADS=1 PYTHONWARNINGS=ignore
exec /opt/venv/bin/python -m symex.run "$@" 2> >(grep -v -i warn >&2)
