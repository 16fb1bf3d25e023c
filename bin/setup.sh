#!/bin/bash
# builds the Java accelerators; everything else is built by each check from /repo's current tree
cd "$(dirname "$0")/.." && python3 - <<'PY'
import sys; sys.path.insert(0,'bin')
sys.argv=['x']
import check; check.ensure_classes()
PY
