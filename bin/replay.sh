#!/bin/bash
# replay.sh FILE: replays a violation file against /repo's working tree.
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
VERIF_SOJU=1 "$HERE/bin/build.sh" "$T/vh"
python3 -c 'import json,sys; v=json.load(open(sys.argv[1])); open(sys.argv[2]+"/b","w").write(json.dumps(v["behaviour"])+"\n"); open(sys.argv[2]+"/m","w").write(v["module"])' "$1" "$T"
"$T/vh" -module "$(cat "$T/m")" -in "$T/b" -scratch "$T"
