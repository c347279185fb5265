#!/bin/bash
# replay.sh FILE: runs a replay file again (exit 1 and the violation if it fails again). LOG=1 prints every system call.
V=$(cd "$(dirname "$0")" && pwd)
export SIM_BUILD=$V/.build
B=sim R=
grep -q '"race": true' "$1" && B=sim-race R=race
"$V/build.sh" $R >/dev/null || exit 2
export SIM_RACELOG=$(mktemp -d)/race
export GORACE="halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=$SIM_RACELOG"
"$SIM_BUILD/$B" replay "$1"
C=$?
rm -rf "$(dirname "$SIM_RACELOG")"
exit $C
