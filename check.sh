#!/bin/bash
# check.sh PROPERTY: builds the simulator from /repo's working tree and decides one property.
# VERIF_SEED, VERIF_TIER as in the manifest; SIM_SECONDS and SIM_CASES change the budget.
V=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$V SIM_BUILD=$V/.build
P=$1
"$V/build.sh" >"$V/.build.log" 2>&1 || { cat "$V/.build.log"; echo "ERROR: the simulator does not build"; exit 2; }
case $P in C09 | C11)
	"$V/build.sh" race >"$V/.build.log" 2>&1 || { cat "$V/.build.log"; echo "ERROR: the simulator does not build with the race detector"; exit 2; } ;;
esac
exec "$SIM_BUILD/sim" check "$P"
