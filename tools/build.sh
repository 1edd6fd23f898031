#!/bin/bash
# build.sh OUT: builds the simulator (with moco's code as it is in /repo now) into OUT.
#
# The simulator is linked with a runtime whose select statements, inside a
# synctest bubble, poll their cases in an order that is a function of the
# simulated time instead of a random one. Only the body of one function
# changes, so all other packages come from the build cache.
set -e
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
out=$1
tmp=$(mktemp -d /tmp/simbuild.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
SIM_GOROOT=$(go env GOROOT)
export SIM_GOROOT
sel=$SIM_GOROOT/src/runtime/select.go
old='j := cheaprandn(uint32(norder + 1))'
new='j := cheaprandn(uint32(norder + 1)); if b := getg().bubble; b != nil { x := uint64(b.now) * 0x9e3779b97f4a7c15; j = uint32((x \^ x>>29) >> 11) % uint32(norder+1) } // sim 1'
cd "$here/../sim"
flags=()
if [ "$(grep -c "$old" "$sel")" = 1 ]; then
  sed "s#$old#$new#" "$sel" > "$tmp/select.go"
  echo "{\"Replace\":{\"$sel\":\"$tmp/select.go\"}}" > "$tmp/overlay.json"
  a=$(go list -export -overlay "$tmp/overlay.json" -toolexec "$here/linkswap.sh" -f '{{.Export}}' runtime)
  export SIM_RUNTIME_A=$a
  flags=(-ldflags "-X mocosim.linkedRuntime=$(basename "$a")" -toolexec "$here/linkswap.sh")
fi
# moco's backup code is built with simulated external programs and buckets, if its shape allows it
try() {
  local lvl=$1; shift
  python3 "$here/overlay.py" "$tmp/o$lvl" "$lvl"
  go test -c -overlay "$tmp/o$lvl/overlay.json" "$@" -o "$out" .
}
try 2 -tags simexec,simcmd "${flags[@]}" && exit 0
echo "build.sh: cannot build cmd/moco-backup in, its managers are called directly" >&2
try 1 -tags simexec "${flags[@]}" && exit 0
echo "build.sh: cannot build the backup code in" >&2
go test -c "${flags[@]}" -o "$out" . && exit 0
unset SIM_RUNTIME_A
echo "build.sh: cannot use the modified runtime, select statements stay unseeded" >&2
go test -c -o "$out" .
