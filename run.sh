#!/bin/bash
# usage: run.sh setup | run.sh check ID quick|thorough | run.sh replay FILE | run.sh list
# Builds the explorer from /repo's current working tree, then runs it.
# (For development, MC_REPO names another copy of the repository.)
. /opt/vp/env.sh 2>/dev/null || export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
export MC_REPO="${MC_REPO:-/repo}"
bin=$(mktemp -d /tmp/mc-bin-XXXXXX) || exit 3
trap 'rm -rf "$bin"' EXIT
cd "$here/mc" || exit 3
mod=()
if [ "$MC_REPO" != /repo ]; then
  sed "s#=> /repo#=> $MC_REPO#" go.mod > "$bin/go.mod"; cp go.sum "$bin/go.sum"
  mod=(-modfile "$bin/go.mod")
fi
go build "${mod[@]}" -o "$bin/mc" . || exit 3
case "$1 $2 $(grep -ao C21 "$2" 2>/dev/null | head -1)" in
  *C21*|setup*|list*) # the command itself, for the property about it
    (cd "$MC_REPO" && go build -o "$bin/readability" ./cmd/readability) || exit 3
    export MC_CLI="$bin/readability";;
esac
case "$1 $2 $(grep -ao C14 "$2" 2>/dev/null | head -1)" in
  *C14*|setup*|list*) # the library under a controlled scheduler, and under the race detector
    mkdir "$bin/inst" && "$bin/mc" instrument "$MC_REPO" "$bin/inst" || exit 3
    go build "${mod[@]}" -race -o "$bin/mc-race" . &
    go build "${mod[@]}" -tags sched -overlay "$bin/inst/overlay.json" -o "$bin/mc-sched" . || exit 3
    wait $! || exit 3
    mv "$bin/mc-sched" "$bin/mc"
    export MC_RACE="$bin/mc-race";;
esac
cd "$here"
[ "$1" = setup ] && exit 0
export MC_VERIF="${MC_VERIF:-$here}" MC_BIN="$bin/mc"
"$bin/mc" "$@"
