#!/bin/sh
# Nothing to build ahead of time: every check compiles what it needs. Verify the tools are there.
set -e
for t in clang++-18 opt-18 llvm-link-18 llvm-cxxfilt-18 z3-new cvc5 python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3'
