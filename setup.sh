#!/bin/bash
# Builds the checker from the committed sources, offline.
cd "$(dirname "$0")/checker" || exit 2
export GOFLAGS=-mod=vendor GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
mkdir -p ../bin && go build -o ../bin/utilxcheck .
