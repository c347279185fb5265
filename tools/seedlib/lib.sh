# Shared by the demonstration: builds a small program that uses astra from the
# tree in the current directory, inside a scratch directory of its own.
set -u
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
scratch=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 3
trap 'rm -rf -- "$scratch"' EXIT
export GOPROXY=off GOFLAGS=-mod=mod GOTOOLCHAIN=local
app=$scratch/app
mkdir -p "$app/types"

die() { echo "FAIL: $*"; exit 1; }
broken() { echo "demo itself failed: $*"; exit 0; } # nothing was shown

mod() { # mod NAME DIR
	{ echo "module $1"; sed -n '/^go /p' "$repo/go.mod"; sed -n '/^require (/,/^)/p' "$repo/go.mod"
	  echo "require github.com/ls6-events/astra v0.0.0"
	  echo "replace github.com/ls6-events/astra => $repo"; } >"$2/go.mod"
	cp "$repo/go.sum" "$2/go.sum"
}

buildapp() {
	mod example.com/app "$app"
	cp "$here/main.go.txt" "$app/main.go"
	[ -f "$here/types.go.txt" ] && cp "$here/types.go.txt" "$app/types/types.go"
	( cd "$app" && go build -o "$scratch/app.bin" . ) || broken "build"
}

buildcli() {
	cp "$repo/cli/astra/go.mod" "$scratch/cli.mod"
	cat "$repo/cli/astra/go.sum" "$repo/go.sum" | sort -u >"$scratch/cli.sum"
	# the replacement in the module file is relative to the file it stands in
	sed -i "s#=> \.\./\.\.#=> $repo#" "$scratch/cli.mod"
	( cd "$repo/cli/astra" && GOFLAGS="-mod=mod -modfile=$scratch/cli.mod" go build -o "$scratch/astra" . ) || broken "build of the command"
}

run() { ( cd "$app" && "$scratch/app.bin" "$@" ) >"$scratch/out" 2>&1; }
