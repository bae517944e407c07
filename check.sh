#!/bin/bash
# usage: check.sh <property-id>   (VERIF_TIER=quick|thorough, VERIF_SEED)
# Builds the explorer from /repo's working tree and runs one property's check.
. "$(dirname "$0")/env.sh"
cd "$(dirname "$0")/harness" || exit 2
id="$1"
bin=vpmc
case "$id" in P[0-9]*) bin=vppipe; cd pipe || exit 2 ;;
Q[0-9]*) bin=vpprove; cd prove || exit 2; python3 ../../tools/genlib.py || exit 2 ;;
L[0-9]*) bin=vpls; cd ls || exit 2; python3 ../../tools/genls.py || exit 2 ;; esac
log=$(mktemp)
if ! cargo build --release --offline -q >"$log" 2>&1; then
  echo "check $id: /repo or the harness does not build"; tail -40 "$log"; rm -f "$log"; exit 2
fi
rm -f "$log"
rm -f /verif/replays/"$id"-*.json
exec timeout -k 5 "${VERIF_RUN_LIMIT:-780}" "$CARGO_TARGET_DIR/release/$bin" "$id"
