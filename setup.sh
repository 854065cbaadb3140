#!/bin/bash
# Builds the verifier from the committed sources, offline.
V=$(cd "$(dirname "$0")" && pwd)
export GO111MODULE=on GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0
[ -n "$HOME" ] || export GOCACHE=$V/.bin/cache
mkdir -p "$V/.bin" && cd "$V/gocv" && go build -o "$V/.bin/gocv.$$" . && mv "$V/.bin/gocv.$$" "$V/.bin/gocv"
