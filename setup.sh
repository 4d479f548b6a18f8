#!/bin/sh
# nothing to build: every check compiles what it needs from /repo at run time. Verify the tools are there.
cd "$(dirname "$0")" || exit 1
mkdir -p out evidence
for t in clang-18 llvm-link-18 gcc z3 z3-new cvc5 python3-vt; do
  command -v "$t" >/dev/null 2>&1 || [ -x "/usr/lib/llvm-18/bin/${t%-18}" ] || { echo "missing tool $t"; exit 1; }
done
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
