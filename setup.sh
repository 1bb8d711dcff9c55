#!/bin/bash
# Builds the explorer once, which fills the build cache and shows that it compiles offline.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh >/dev/null 2>&1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
cd "$here/mc" || exit 2
out=$(mktemp -d /tmp/mcsetup.XXXXXX) || exit 2
trap 'rm -rf "$out"' EXIT
go build -o "$out/mc" .
