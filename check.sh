#!/bin/bash
# check.sh PROPERTY [TIER]: decide one property on /repo's current tree.
# check.sh setup: only build the engine.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
bin=$here/bin/gosym
build() {
	mkdir -p "$here/bin" "$here/.cache/go-build"
	(cd "$here/gosym" && GOCACHE=$here/.cache/go-build CGO_ENABLED=0 go build -o "$bin.$$" . && mv "$bin.$$" "$bin")
}
if [ ! -x "$bin" ] || [ -n "$(find "$here/gosym" -newer "$bin" -name '*.go' -print -quit)" ]; then
	build || { echo "cannot build the engine" >&2; exit 3; }
fi
[ "$1" = setup ] && exit 0
export GOMEMLIMIT=20GiB GOGC=800
exec "$bin" -verif "$here" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
