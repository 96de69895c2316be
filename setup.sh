#!/bin/bash
# compiles the TLC operator overrides; everything else is built by the checks
set -e
cd "$(dirname "$0")"
python3 -c "import sys; sys.path.insert(0, '.'); from vp.core import build_java; print(build_java())"
