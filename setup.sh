#!/bin/bash
# Builds the symbolic executor and the runtime model; checks build what else they need themselves.
cd "$(dirname "$0")"
bash engine/build.sh || exit 1
python3 - <<'P'
import sys
sys.argv = ['setup']
sys.path.insert(0, '.')
import check
check.ensure_engine()
check.rt_build()
P
