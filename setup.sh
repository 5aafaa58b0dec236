#!/bin/bash
# Nothing is built ahead of time: each check compiles /repo's current sources itself. This only verifies the tools.
set -e
cd "$(dirname "$0")"
for t in clang-18 opt-18 llvm-link-18 llvm-dis-18 python3; do command -v $t >/dev/null; done
python3 -c "import sys; sys.path.insert(0,'.'); from vf import ir; ir.lib(); print('libLLVM ok')"
