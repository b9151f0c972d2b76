#!/bin/bash
# builds the extractor (the only compiled part) from the committed source
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, '.')
from wdtsa.program import build_tool, extract
print(build_tool())
print(len(extract()), 'translation units extracted')
P
