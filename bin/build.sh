#!/bin/bash
# Builds the harness from /repo's working tree: build.sh OUT [extra go build flags]
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
OUT=$1; shift
OV=$(mktemp)
trap 'rm -f "$OV"' EXIT
{
  printf '{"Replace":{'
  sep=""
  for f in "$HERE"/harness/*.go; do
    printf '%s"%s/cmd/verifharness/%s":"%s"' "$sep" "$REPO" "$(basename "$f")" "$f"; sep=","
  done
  if [ -d "$HERE/harness/internal_soju" ]; then
    for f in "$HERE"/harness/internal_soju/*.go; do
      [ -e "$f" ] || continue
      printf '%s"%s/%s":"%s"' "$sep" "$REPO" "$(basename "$f")" "$f"; sep=","
    done
  fi
  printf '}}'
} > "$OV"
cd "$REPO"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
go build -buildvcs=false -overlay "$OV" "$@" -o "$OUT" ./cmd/verifharness
if [ -n "$VERIF_SOJU" ]; then
  for c in soju sojuctl sojudb; do
    go build -buildvcs=false -overlay "$OV" "$@" -o "$OUT.$c" ./cmd/$c
  done
fi
