#!/bin/bash
# Nothing to build: the engine and the contracts are Python; check that the tools are there.
set -e
/opt/venv/bin/python -c 'import sys; sys.path.insert(0, "/repo"); import kajiki'
/opt/veriftools/pyvenv/bin/python -c 'import z3, cvc5'
