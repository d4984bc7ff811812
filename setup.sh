#!/bin/bash
# Builds the checker. Everything needed is in /verif and the Go module cache.
set -e
cd "$(dirname "$0")"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GOSUMDB=off CGO_ENABLED=0
mkdir -p bin evidence
(cd engine && go build -o ../bin/.gosymx.$$ . && mv ../bin/.gosymx.$$ ../bin/gosymx)
