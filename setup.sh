#!/bin/bash
# Warms the Go build cache; every check builds for itself anyway.
cd "$(dirname "$0")/harness" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
go build -o /dev/null ./driver && go vet ./props >/dev/null 2>&1; go test -c -o /dev/null ./props
