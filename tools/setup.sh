#!/bin/bash
# warms the build cache; every check builds again from /repo's tree
set -e
t=$(mktemp -d /tmp/mocosim.XXXXXX)
trap 'rm -rf "$t"' EXIT
"$(dirname "$0")/build.sh" "$t/sim.test"
