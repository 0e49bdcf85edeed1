#!/bin/bash
# Builds the parts of the framework that do not depend on /repo's current tree, and
# warms the caches under .build (every check also builds what it needs by itself).
set -e
cd "$(dirname "$0")/.."
python3 - <<'PY'
import sys
sys.path.insert(0, "tools")
import vlib
vlib.build_java()
PY
