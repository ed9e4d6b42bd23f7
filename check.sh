#!/bin/bash
# check.sh <property> [quick|thorough]: rebuild against /repo's working tree, then explore.
# exit 0: held on everything explored; exit 1 + VIOLATION line: broken; anything else: an error.
. /opt/vp/env.sh
HERE="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
export MC_VERIF="$HERE"
if [ "$ID" = C25 ]; then exec python3 "$HERE/conc/check.py" "$TIER"; fi
if [ "$ID" = C31 ] || [ "$ID" = C32 ]; then exec python3 "$HERE/gen/check.py" "$ID" "$TIER"; fi
if [ "$ID" = C33 ]; then exec python3 "$HERE/cost/check.py" "$TIER"; fi
cd "$HERE/mc" || exit 2
OUT="$(cargo build --release --offline 2>&1)" || { echo "$OUT" | tail -40; echo "BUILD-ERROR"; exit 2; }
exec target/release/mc "$ID" "$TIER"
