#!/bin/bash
# builds the AST extractor (clang 18 tooling) and fills the fact cache for the current tree
set -e
cd "$(dirname "$0")"
python3 - <<'PY'
import sys
sys.path.insert(0, "sa")
sys.setrecursionlimit(100000)
import program as P
P.load(())
PY
