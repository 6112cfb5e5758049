#!/bin/bash
# check.sh ID quick|thorough | check.sh replay FILE | check.sh build [race]
# Builds the harness from /repo's current working tree (with the overlay) and runs one check.
set -u
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export GOFLAGS=-mod=mod
B="$VERIF_DIR/.build"
mkdir -p "$B"
build() { # $1: output name, rest: flags
  local out="$1"; shift
  (cd "$VERIF_DIR/mc" && flock "$B/lock" bash -c 'python3 overlay.py "$0/overlay" && go build "${@:2}" -modfile "$0/overlay/go.mod" -overlay "$0/overlay/overlay.json" -o "$1" .' "$B" "$out" "$@") >"$B/build.log" 2>&1 || { cat "$B/build.log" >&2; echo "check.sh: build failed" >&2; exit 2; }
}
build "$B/mc"
case "$1" in
 build) [ "${2:-}" = race ] && build "$B/mc-race" -race; exit 0;;
 replay) grep -q '"race' "$2" && build "$B/mc-race" -race; exec "$B/mc" replay "$2";;
 C09|C10|C11) build "$B/mc-race" -race;;
esac
exec "$B/mc" check "$1" "${2:-${VERIF_TIER:-quick}}"
