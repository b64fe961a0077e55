#!/bin/bash
# Builds gover and warms the Go build cache for the harnesses. Offline.
cd "$(dirname "$0")" || exit 1
mkdir -p bin
export GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOTOOLCHAIN=local GOWORK=off
(cd gover && go build -o ../bin/gover . ) || exit 1
ls -la bin/gover
