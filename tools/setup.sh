#!/bin/bash
# nothing to build: checks compile /repo's headers themselves; verify that the tools are there
set -e
cd "$(dirname "$0")/.."
command -v clang++-18 g++ z3 cvc5 python3-vt >/dev/null
python3-vt -c 'import z3, numpy; from vc import props; print(len(props.PROPS), "properties")'
