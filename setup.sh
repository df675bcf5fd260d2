#!/bin/bash
# nothing to build in advance: every check compiles its harness against /repo's current tree
set -e
cd "$(dirname "$0")"
mkdir -p evidence out
/opt/veriftools/pyvenv/bin/python3 -c 'import z3, sys; sys.path.insert(0, "."); import engine.runner, engine.sym, specs'
command -v clang++ >/dev/null
