#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild the node images from /repo's working tree and search for a violation.
set -u
cd "$(dirname "$0")" || exit 2
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}; SEED=${VERIF_SEED:-1}
export LC_ALL=C TZ=UTC
B=$PWD/build; mkdir -p "$B" evidence replays
exec 9>"$B/.lock"; flock 9
if ! make -s -C sim -j8 REPO=/repo B="$B" PROP="$ID" prop >"$B/make.log" 2>&1; then cat "$B/make.log" >&2; echo "check.sh: build failed" >&2; exit 2; fi
flock -u 9
exec "$B/simrun" --prop "$ID" --tier "$TIER" --seed "$SEED" --dir "$B" --evidence "evidence/$ID.json" --replays "$PWD/replays" --known known_findings.txt "${@:3}"
