#!/bin/bash
# bash check.sh <property> [simcheck flags]: rebuilds the instrumented library
# from /repo's working tree and runs the simulations of one property.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
prop="$1"; shift
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0 GOFLAGS=-mod=mod GOENV=off
export GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
unset GODEBUG GOEXPERIMENT
export SIM_KNOWN="$here/known_findings.txt"
export PATH="$PATH:/usr/local/go/bin"
out="$here/build/$prop.$$"
trap 'rm -rf "$out"' EXIT
mkdir -p "$out" "$here/evidence" "$here/out"
cd "$here/sim" || exit 2
go build -o "$out/instrument" ./cmd/instrument || exit 2
"$out/instrument" /repo "$out" || exit 2
if ! go build -overlay "$out/overlay.json" -o "$out/simcheck" ./cmd/simcheck; then
  # code that the full instrumentation cannot cope with
  "$out/instrument" -plain /repo "$out" || exit 2
  go build -overlay "$out/overlay.json" -o "$out/simcheck" ./cmd/simcheck || exit 2
fi
"$out/simcheck" -prop "$prop" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" \
  -evidence "$here/evidence/$prop.json" -out "$here/out" "$@"
