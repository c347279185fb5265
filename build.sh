#!/bin/bash
# build.sh: builds the simulator from the working tree of /repo into /verif/.build (ignored by git).
# usage: build.sh [race]
set -e
V=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null || export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOWORK=off GOTOOLCHAIN=local GOPROXY=off
B=$V/.build
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
cp "$V/sim/go.mod" "$B/sim.mod"
cp "$V/sim/go.sum" "$B/sim.sum"
export GOFLAGS="-mod=mod -modfile=$B/sim.mod"
cd "$V/sim"
go build -o "$B/simbuild" ./cmd/simbuild
"$B/simbuild" -out "$B/ov" -sim "$V/sim" -universe "$B/universe.json"
if [ "$1" = race ]; then
	CGO_ENABLED=1 go build -race -gcflags=verifsim/...=-race=false -overlay "$B/ov/overlay.json" -o "$B/sim-race" ./cmd/sim
else
	CGO_ENABLED=0 go build -overlay "$B/ov/overlay.json" -o "$B/sim" ./cmd/sim
fi
