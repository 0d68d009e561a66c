#!/bin/bash
# builds the TLC override class and warms the harness builds (each check rebuilds what changed)
cd "$(dirname "$0")" || exit 1
python3 - <<'PY' || exit 1
import sys
sys.path.insert(0, "tools")
import vlib
vlib.build_override()
for c in ("full", "default", "std", "rayon", "serde", "stdlibm", "stdserde", "rkyv"):
    print("harness", c, vlib.build_harness(c), flush=True)
PY
