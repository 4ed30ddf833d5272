#!/bin/sh
# builds the engine from the committed sources, offline
cd "$(dirname "$0")" || exit 2
mkdir -p bin evidence
cd engine && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local go build -o ../bin/vengine.tmp . && mv ../bin/vengine.tmp ../bin/vengine
