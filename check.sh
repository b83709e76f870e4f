#!/bin/bash
# check.sh ID [quick|thorough | replay FILE]: rebuilds the harness from /repo's working tree and decides one property.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
base=/dev/shm
[ -d "$base" ] && [ -w "$base" ] && [ "$(df -Pm "$base" | awk 'NR==2{print $4}')" -gt 6000 ] || base=${TMPDIR:-/tmp}
work=$(mktemp -d "$base/verif.XXXXXX") || exit 2
trap 'rm -rf -- "$work"' EXIT
trap 'exit 2' INT TERM
cd "$here/harness" || exit 2
tags=cppbtree,verif
overlay=
if [ "$1" = C06 ]; then
  python3 "$here/tools/mkoverlay.py" "$work" || { echo "ERROR: no overlay"; exit 2; }
  tags=$tags,fsrec
  overlay="-overlay $work/overlay.json"
fi
[ "$1" = S04 ] && overlay=-race
if ! go build $overlay -tags $tags -o "$work/harness" . >"$work/build.log" 2>&1; then
  cat "$work/build.log"
  echo "ERROR: the harness does not build against /repo"
  exit 2
fi
mkdir "$work/s"
export VERIF_SCRATCH="$work/s" VERIF_DIR="$here"
"$work/harness" check "$@"
