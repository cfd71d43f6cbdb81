#!/bin/bash
# Builds demo.go against the current tree and runs it: exit 0 when the
# behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/cmd/verifdemo/core.go":"%s/core.go","%s/cmd/verifdemo/demo.go":"%s/demo.go"}}' "$repo" "$here" "$repo" "$here" > "$tmp/overlay.json"
go build -buildvcs=false -overlay "$tmp/overlay.json" -o "$tmp/demo" ./cmd/verifdemo || exit 2
TMPDIR=$tmp timeout 120 "$tmp/demo"
