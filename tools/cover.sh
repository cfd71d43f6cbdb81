#!/bin/bash
# cover.sh OUT.txt module=behaviours.ndjson...: which code of soju the behaviours reach
HERE=$(cd "$(dirname "$0")/.." && pwd)
OUT=$1; shift
D=$(mktemp -d /tmp/cover.XXXXXX); mkdir $D/c $D/s
cp -a ${VERIF_REPO:-/repo} $D/r; mkdir $D/r/cmd/verifharness; cp $HERE/harness/*.go $D/r/cmd/verifharness/
cd $D/r && GOFLAGS=-mod=mod go build -buildvcs=false -cover -coverpkg=./... -o $D/vh ./cmd/verifharness || exit 1
for a in "$@"; do
  for i in 0 1 2 3 4 5; do
    GOCOVERDIR=$D/c timeout 600 $D/vh -module ${a%%=*} -in ${a#*=} -scratch $D/s -shard $i -shards 6 >/dev/null 2>&1 &
  done; wait
done
go tool covdata textfmt -i=$D/c -o=$OUT.raw && grep -v verifharness $OUT.raw > $OUT
go tool cover -func=$OUT > $OUT.func
rm -rf "$D" $OUT.raw
