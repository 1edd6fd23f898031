#!/bin/bash
# exits 0 when the property holds in the tree in the current directory
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null || export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
pkg=$(cat "$here/pkg")
root=$(pwd -P)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
{
  echo '{"Replace":{'
  sep=
  for f in "$here"/*_test.go; do
    printf '%s"%s":"%s"' "$sep" "$root/$pkg/zz_demo_$(basename "$f")" "$f"
    sep=,
  done
  echo '}}'
} > "$t/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run '^TestDemo$' "./$pkg"
