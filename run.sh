#!/bin/bash
# run.sh PROPERTY [quick|thorough]: builds from /repo's current tree and runs the monitor of one property.
here=$(cd "$(dirname "$0")" && pwd)
tier="${2:-${VERIF_TIER:-quick}}"
case "$1-$tier" in
C17-*) bash "$here/sanitize.sh" thread & ;;
C01-thorough) bash "$here/sanitize.sh" address & ;;
esac
bash "$here/build.sh" || { wait; exit 2; }
wait
export VERIF_HOME="$here"
exec "$here/target/debug/harness" run "$1" "$tier"
