#!/bin/bash
# run.sh <property> [gosym flags]: decides one property against /repo's current tree.
. "$(dirname "$0")/env.sh"
id="$1"; shift
if ! [ -x "$VDIR/bin/gosym" ] || [ -n "$(find "$VDIR/engine" -name '*.go' -newer "$VDIR/bin/gosym" -print -quit)" ]; then
  bash "$VDIR/setup.sh" || { echo "ERROR: the checker does not build"; exit 2; }
fi
exec "$VDIR/bin/gosym" -id "$id" -verif "$VDIR" "$@"
