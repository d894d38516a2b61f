#!/bin/bash
# replay.sh <replay file> [-v]: rebuild from /repo's working tree and re-run the recorded schedule and faults exactly.
set -u
F=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
B=$PWD/build; mkdir -p "$B"
ID=$(sed -n 's/^property //p' "$F" | head -1); [ -n "$ID" ] || ID=$(basename "$F" | cut -d- -f1)
make -s -C sim -j8 REPO=/repo B="$B" PROP="$ID" prop >"$B/make.log" 2>&1 || { cat "$B/make.log" >&2; exit 2; }
exec "$B/simrun" --dir "$B" --replay "$F" "${@:2}"
