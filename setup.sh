#!/bin/bash
# Warms the build cache; every check builds the harness itself again
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOSUMDB=off GOWORK=off
cd "$(dirname "$0")/harness" || exit 1
go build -buildvcs=false -o /dev/null . && go build -buildvcs=false -race -o /dev/null .
