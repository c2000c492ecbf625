#!/bin/bash
# replay.sh <replay file>: rebuilds the simulation from /repo's working tree and replays the recorded choices.
# Exit 1: the recorded violation was reproduced exactly; 0: no violation; 3: another one.
F=$(realpath "$1"); cd "$(dirname "$0")" || exit 2
H=$(sed -n 's/^ "harness": "\(.*\)",$/\1/p' "$F")
export SIM_VERIF="$PWD"
sim/build.sh "$H" "$PWD/build/replay" || exit 2
exec "$PWD/build/replay/$H" --replay "$F"
