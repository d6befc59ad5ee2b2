#!/bin/bash
# setup.sh: checks the tools and builds the engine once, which fills the Go
# build cache. Every check builds what it needs again.
set -eu
verif=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
for t in go z3-new cvc5; do command -v "$t" >/dev/null || { echo "missing $t"; exit 1; }; done
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd "$verif/engine"
go vet . || true
go build -o "$tmp/symgo" .
mkdir -p "$verif/evidence"
