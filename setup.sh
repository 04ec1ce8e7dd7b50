#!/bin/bash
# nothing to install: every check compiles what it needs from /repo itself.
set -e
cd "$(dirname "$0")"
for t in clang++-18 llvm-link-18 g++ cvc5; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
/opt/veriftools/pyvenv/bin/python3 -c 'import z3'
mkdir -p evidence
