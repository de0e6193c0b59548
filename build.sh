#!/bin/bash
# builds the engine from the committed sources, offline
set -e
cd "$(dirname "$0")/engine"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p ../bin
go build -o ../bin/vc.tmp.$$ ./cmd/vc && mv ../bin/vc.tmp.$$ ../bin/vc
