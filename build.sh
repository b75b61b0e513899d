#!/bin/bash
# Builds the engine (from the committed sources, offline).
set -e
cd "$(dirname "$0")"
export PATH=/opt/veriftools/go1.26.10/bin:/usr/local/bin:/usr/bin:/bin:$PATH HOME=${HOME:-/root}
cd engine
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0 go build -o ../bin/engine .
