#!/bin/bash
# check.sh Cxx [quick|thorough]: builds from /repo's working tree, simulates, exits 0 or 1.
cd "$(dirname "$0")" || exit 2
P="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
case "$P" in C21|C22|C24) LEAN=lean ;; *) LEAN= ;; esac
./build.sh $LEAN >&2 || { echo "build failed" >&2; exit 2; }
exec ./target/debug/icasim check --property "$P" --tier "$TIER"
