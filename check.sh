#!/bin/bash
# usage: check.sh ID - builds the harness against /repo's working tree and decides property ID.
# VERIF_SEED pins every random choice, VERIF_TIER is quick or thorough.
# check.sh ID FILE - judges the one case of a replay file: exit 0 when the property holds on it, 10 or another number otherwise.
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
id=$1
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
race=
[ "$id" = C15 ] && race=-race
if ! (cd "$here/harness" && go build -buildvcs=false $race -o "$tmp/harness" .) >"$tmp/build.log" 2>&1; then
	cat "$tmp/build.log" >&2
	exit 2
fi
if [ -n "$2" ]; then
	"$tmp/harness" -mode replay -prop "$id" -file "$2"
else
	"$tmp/harness" -mode check -prop "$id" -verif "$here"
fi
