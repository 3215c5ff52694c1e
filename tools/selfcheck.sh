#!/bin/sh
# the tools the checks need are there
for t in clang++ g++ z3 cvc5 python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3'
