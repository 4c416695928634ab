#!/bin/bash
# check.sh ID [quick|thorough]: decides one property (or "all") on the source in $REPO (default /repo).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GO111MODULE=on GOFLAGS=-mod=vendor CGO_ENABLED=0
export GOCACHE=${GOCACHE:-$HOME/.cache/go-build} GOMODCACHE=${GOMODCACHE:-$HOME/go/pkg/mod}
export VERIF=$here REPO=${REPO:-/repo}
[ -n "$2" ] && export VERIF_TIER=$2
bin=$here/bin/rtmpcheck
if [ ! -x "$bin" ] || [ -n "$(find "$here/rtmpcheck" -newer "$bin" -name '*.go' -print -quit)" ]; then
	mkdir -p "$here/bin"
	(cd "$here/rtmpcheck" && go build -o "$bin" .) || exit 2
fi
[ "$1" = build ] && exit 0
exec "$bin" $1
