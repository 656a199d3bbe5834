#!/bin/bash
# Builds everything once, so that the build cache is warm and a broken build shows.
cd "$(dirname "$0")/.." || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS= HOME=${HOME:-/root}
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
cd mc && go vet ./core ./ref >/dev/null 2>&1
go build -o "$T/mc" . && go build -o "$T/overlay" ./cmd/overlay && { go build -race -o "$T/race" . || true; }
