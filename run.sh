#!/bin/bash
# run.sh check ID | run.sh replay FILE: rebuilds from /repo's working tree and
# runs the simulator.
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/sim/build.sh" || exit 4
b="${SIM_BUILD:-$here/sim/.build}"
export SIM_SOURCES="$b/sources.txt"
export SIM_TOOLS="$b/tools/debug/examples"
export SIM_SHIM="$b/sim/release/libsimshim.so"
export SIM_REPLAYS="${SIM_REPLAYS:-$here/replays}"
exec "$b/sim/release/tofas-sim" "$@"
