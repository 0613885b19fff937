#!/bin/sh
# nothing to build: the verifier is Python, the contracts are Python 2 text
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/../evidence"
/opt/veriftools/pyvenv/bin/python3 -c 'import z3, sys; print("z3", z3.get_version_string())' && test -x /opt/vp/runner/jython.sh && echo ok
