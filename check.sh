#!/bin/bash
# usage: check.sh PROP quick|thorough [symgo flags]   |   check.sh replay FILE
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" >&2 || { echo "symgo: engine does not build" >&2; exit 2; }
if [ "$1" = replay ]; then
  exec "$here/bin/symgo" -verif "$here" -replay "$2"
fi
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
exec "$here/bin/symgo" -verif "$here" -prop "$prop" -tier "$tier" "$@"
