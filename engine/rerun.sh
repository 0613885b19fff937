#!/bin/sh
# rerun.sh REPLAY.json: runs a recorded counterexample against the real code in /repo
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/veriftools/pyvenv/bin/python3 "$here/rerun.py" "$1"
