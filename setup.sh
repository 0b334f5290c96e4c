#!/bin/bash
# Compiles the harness once, so that the go build cache is warm and a broken installation shows early.
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
cd "$here/harness" && go build -buildvcs=false -o "$tmp/a" . && go build -buildvcs=false -race -o "$tmp/b" .
