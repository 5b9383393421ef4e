#!/bin/bash
# exit 0: the property holds in the simulated histories tried; nonzero: it does not
HERE=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d) || exit 99; trap 'rm -rf "$W"' EXIT
read -r SIM MODE SEED N < "$HERE/mode"
REPO=$PWD bash "$HERE/sim/build.sh" "$W" "$SIM" || exit 99
timeout 250 "$W/$SIM" batch "$MODE" quick "$SEED" "$N" 1 200 > "$W/out"; rc=$?
cat "$W/out"
[ $rc = 0 ] || exit 99
grep -q '"violation":null' "$W/out"
