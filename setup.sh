#!/bin/sh
# nothing to build ahead: every check compiles /repo itself
mkdir -p build evidence
python3-vt -c "import z3, mpmath" && cargo --version >/dev/null
