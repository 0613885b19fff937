#!/bin/sh
# what functions return under Jython is what the engine says they return (contracts/st_python.py)
exec "$(dirname "$0")/check.sh" st_python quick "$@"
