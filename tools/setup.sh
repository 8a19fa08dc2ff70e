#!/bin/bash
# Nothing to build: the verifier is Python (python3-vt), the code under verification is taken from /repo on every run.
set -e
cd "$(dirname "$0")/.."
for t in python3-vt clang++-18 cvc5; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3'
mkdir -p evidence
