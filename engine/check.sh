#!/bin/sh
# check.sh PROPERTY TIER [options of verify.py]
here=$(cd "$(dirname "$0")" && pwd)
p="$1"; t="${2:-quick}"
[ $# -ge 2 ] && shift 2 || shift $#
export VERIF_TIER="$t"
exec /opt/veriftools/pyvenv/bin/python3 -O "$here/verify.py" "$p" --tier "$t" "$@"
