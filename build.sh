#!/bin/bash
# Builds the engine into .build/gosym unless it is up to date.
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/engine" || exit 1
bin="$here/.build/gosym"
if [ -x "$bin" ] && [ -z "$(find . -name '*.go' -newer "$bin" -print -quit)" ] && [ ! go.mod -nt "$bin" ]; then exit 0; fi
mkdir -p "$here/.build"
export GOFLAGS=-mod=readonly GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
go build -o "$bin.$$" ./cmd/gosym && mv "$bin.$$" "$bin"
