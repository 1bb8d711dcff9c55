#!/bin/bash
# Runs the demonstration beside this file against the tree in the current directory:
# the *_test.go files are laid over it as the package zz_demo (or the package named in PKG).
here=$(cd "$(dirname "$0")" && pwd)
root=$PWD
. /opt/vp/env.sh >/dev/null 2>&1
cd "$root" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
pkg=zz_demo
[ -f "$here/PKG" ] && pkg=$(cat "$here/PKG")
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
{
  echo '{"Replace":{'
  sep=
  for f in "$here"/*_test.go; do
    echo "$sep\"$root/$pkg/zz_$(basename "$f")\":\"$f\""; sep=,
  done
  echo '}}'
} > "$tmp/overlay.json"
go test -c -vet=off -overlay "$tmp/overlay.json" -o "$tmp/demo" "./$pkg" > "$tmp/out" 2>&1 || echo "build failed" >> "$tmp/out"
rc=2
if [ -x "$tmp/demo" ]; then
  cd "$tmp" && ./demo -test.run TestDemo -test.timeout 200s >> "$tmp/out" 2>&1
  rc=$?
fi
grep -v '^[IWE][0-9]' "$tmp/out" | tail -30
exit $rc
