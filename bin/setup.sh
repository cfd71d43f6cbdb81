#!/bin/bash
# Warms the Go build cache and checks the tools are there.
set -e
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
VERIF_SOJU=1 "$(dirname "$0")/build.sh" "$T/vh"
"$T/vh" -list >/dev/null
command -v tlc >/dev/null
