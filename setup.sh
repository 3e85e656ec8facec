#!/bin/bash
# Builds the instrumenter and the simulator once (fills the build caches) and
# runs a few seeds twice to see that executions repeat exactly.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup.XXXXXX") || exit 3
trap 'rm -rf "$tmp"' EXIT
"$here/sim/build.sh" "$tmp" || exit 3
"$tmp/sim" selftest -n 6
