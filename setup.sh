#!/bin/bash
# Builds the checker once so that its build cache is warm.
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p bin evidence
cd checker && go build -o ../bin/chk .
