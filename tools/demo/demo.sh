#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp go.mod go.sum "$t"/ 2>/dev/null
GOFLAGS="-mod=mod -modfile=$t/go.mod" go build -o "$t/demo" "$d"/*.go || exit 2
timeout 60 "$t/demo"
