#!/bin/bash
# Builds the simulated command line from the repository's working tree:
#   build.sh OUTDIR   ->  OUTDIR/sim
# Falls back to weaker instrumentation only if the stronger does not compile.
set -u
out=$1
here=$(cd "$(dirname "$0")/.." && pwd)
repo=${VERIF_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS
unset GOWORK; export GOWORK=off
mkdir -p "$out" || exit 3
( cd "$here/sim/instr" && GOFLAGS= go build -buildvcs=false -o "$out/instr" . ) || { echo "cannot build the instrumenter"; exit 3; }
cp "$repo/go.mod" "$out/go.mod" && cp "$repo/go.sum" "$out/go.sum" || exit 3
for flags in "" "-noknob" "-noknob -noyield"; do
  rm -rf "$out/gen" "$out/overlay.json"
  if "$out/instr" -repo "$repo" -verif "$here" -out "$out" -modfile "$out/go.mod" $flags >"$out/instr.log" 2>&1 &&
     ( cd "$repo" && go build -modfile "$out/go.mod" -overlay "$out/overlay.json" -buildvcs=false -o "$out/sim" . ) >"$out/build.log" 2>&1; then
    echo "${flags:-full}" >"$out/instrumentation"
    exit 0
  fi
  cat "$out/instr.log" "$out/build.log" 2>/dev/null | head -${VERIF_LINES:-40} >&2
  [ -n "${VERIF_STRICT:-}" ] && exit 3
done
exit 3
