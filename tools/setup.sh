#!/bin/bash
# Builds what the checks share: the Java replacement of spec/BigInt.tla and the executor in four builds.
set -e
cd "$(dirname "$0")/.."
python3 - <<'P'
import sys
sys.path.insert(0, 'tools')
import check
check.build_java()
check.build_exec(['debug', 'release', 'big', 'checked'])
P
