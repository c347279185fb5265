#!/bin/bash
# conform.sh [N] [SEED]: runs generations in the simulator and for real (real files, real packages.Load and go
# command) in a scratch directory and compares verdicts and file trees. Validates the simulator; not a check.
V=$(cd "$(dirname "$0")" && pwd)
export SIM_BUILD=$V/.build
"$V/build.sh" >/dev/null || exit 2
. /opt/vp/env.sh 2>/dev/null
unset PWD OLDPWD
S=$(mktemp -d /tmp/conform.XXXXXX)
sed -n '/^require/,$p' /repo/go.mod >"$S/mod"
cd "$S" && "$SIM_BUILD/sim" conform "${1:-40}" "${2:-1}" "$S/mod" /repo/go.sum "$S"
C=$?
[ -n "$KEEP" ] || rm -rf "$S"
exit $C
