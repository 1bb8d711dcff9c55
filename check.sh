#!/bin/bash
# check.sh <property> [quick|thorough] [-replay FILE]: builds the explorer against /repo's
# working tree and runs one property's check.
set -u
prop=${1:?property}; shift
tier=quick
case "${1:-}" in quick|thorough) tier=$1; shift;; esac
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
cd "$here/mc" || exit 2
bin=$(mktemp -d /tmp/mcbin.XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
args=()
if [ "$prop" = C21 ] || [ "$prop" = C30 ]; then
  # over a runtime whose random choices the explorer makes
  ./rt/make.sh "$bin" || exit 2
  args=(-overlay "$bin/overlay.json" -tags mcrt)
elif [ "$prop" = C34 ]; then
  # the same, and a second program with the race detector
  ./rt/make.sh "$bin" small || exit 2
  args=(-overlay "$bin/overlay.json" -tags mcrt)
  export MC_RACEBIN="$bin/mcrace"
  go build -race "${args[@]}" -gcflags='github.com/btcsuite/btcd/...=-race=false' -gcflags='math/big=-race=false' -o "$MC_RACEBIN" . >"$bin/racelog" 2>&1 & racepid=$!
fi
if ! go build "${args[@]}" -o "$bin/mc" . >"$bin/log" 2>&1; then
  # the tree under test does not compile together with the explorer
  cat "$bin/log"; exit 2
fi
if [ -n "${racepid:-}" ] && ! wait "$racepid"; then cat "$bin/racelog"; exit 2; fi
"$bin/mc" -prop "$prop" -tier "$tier" -verif "$here" -seed "${VERIF_SEED:-1}" "$@"
