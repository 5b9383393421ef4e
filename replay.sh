#!/bin/bash
# replay.sh FILE   rebuilds the simulator the file names and runs it: exit 1 if the violation is there
HERE=$(cd "$(dirname "$0")" && pwd)
SIM=$(sed -n 's/^# sim //p' "$1" | head -1)
W=$(mktemp -d "$HERE/.work-replay-XXXXXX"); trap 'rm -rf "$W"' EXIT
bash "$HERE/sim/build.sh" "$W" "$SIM" && "$W/$SIM" run "$1" counters
