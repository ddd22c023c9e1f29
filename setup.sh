#!/bin/sh
# Builds the harness in every variant from /repo and checks that the specification loads.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, "tools")
import vlib
print(vlib.build_all(list(vlib.VARIANTS)))
P
# Explores the families of the specification that the quick checks replay (within a time budget).
python3 tools/prepare.py 1250
