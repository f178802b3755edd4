#!/bin/bash
# check.sh <property> [quick|thorough]: decides one property on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
newest=$(find "$here/govc" -name vendor -prune -o \( -name '*.go' -o -name '*.txt' \) -newer "$here/bin/govc" -print -quit 2>/dev/null)
if [ ! -x "$here/bin/govc" ] || [ -n "$newest" ]; then
  "$here/build.sh" || { echo "error: the verifier does not build"; exit 2; }
fi
exec "$here/bin/govc" check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
