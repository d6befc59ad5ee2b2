#!/bin/bash
# check.sh PROPERTY: decides one property of the code in /repo.
# Builds the engine from /verif/engine into a scratch directory and runs it.
set -u
verif=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
export TMPDIR="$tmp"
(cd "$verif/engine" && go build -o "$tmp/symgo" .) || exit 2
"$tmp/symgo" -verif "$verif" -property "$@"
exit $?
