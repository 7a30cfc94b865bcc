#!/bin/sh
# Sanity check of what the checks need: the compiler, and one complete out-of-tree build of the library with a harness.
# Every check builds what it needs from /repo's current tree by itself.
set -e
cd "$(dirname "$0")/.."
python3 - <<'P'
import sys; sys.path.insert(0, 'mc')
import build as B
print(B.build('setup_gemm', 'h/gemm.c', 'asan', ['mc/mc.c']))
P
