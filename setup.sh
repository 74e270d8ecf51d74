#!/bin/bash
# builds the verifier once; checks rebuild it when needed
cd "$(dirname "$0")/engine" || exit 1
unset GOROOT
mkdir -p ../.cache/engine
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off GOCACHE="$PWD/../.cache/engine" go build -o ../.cache/gocv .
