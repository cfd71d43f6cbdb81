#!/bin/bash
# seed.sh ID [nocheck]: confirms a planted bug in a scratch copy of /repo, and
# runs the check of its property against it.
ID=$1; D=/verif/seeded/$ID
W=/tmp/seedwt-$ID
[ -e "$D/demo.go" ] && cp /verif/harness/core.go "$D/core.go" && cp /verif/tools/demo.sh "$D/demo.sh"
rm -rf "$W"; cp -a /repo "$W"; cd "$W" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
R=""
bash "$D/demo.sh" >/tmp/seed-$ID.clean 2>&1 && R="$R demo-clean:ok" || R="$R demo-clean:FAIL"
git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; rm -rf "$W"; exit 1; }
if go build ./... 2>/tmp/seed-$ID.build; then R="$R build:ok"; else R="$R build:FAIL"; fi
go test -vet=off -count=1 -cpu 1 ./... >/tmp/seed-$ID.test 2>&1 && R="$R tests:ok" || R="$R tests:FAIL"
bash "$D/demo.sh" >/tmp/seed-$ID.demo 2>&1 && R="$R demo-bug:PASSES" || R="$R demo-bug:fails"
if [ -z "$2" ]; then
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  VERIF_REPO=$W VERIF_SEED=1 /verif/bin/check.py $P --tier quick >/tmp/seed-$ID.check 2>&1; rc=$?
  R="$R check($P):rc=$rc"
fi
echo "$ID:$R"
cd /; rm -rf "$W"
