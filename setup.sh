#!/bin/bash
# builds the fact extractor and extracts the MIR facts of every workspace crate of /repo
set -e
cd "$(dirname "$0")"
python3 - <<'PY'
import sys
sys.path.insert(0, "engine")
from sa import facts
facts.setup()
PY
