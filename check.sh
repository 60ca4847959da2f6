#!/bin/bash
# Usage: check.sh PROPERTY [REPLAYFILE]   (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")/harness" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
T=$(mktemp -d) || exit 2
go build -o "$T/driver" ./driver || { rm -rf "$T"; exit 2; }
"$T/driver" "$@"
code=$?
rm -rf "$T"
exit $code
