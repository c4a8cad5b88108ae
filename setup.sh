#!/bin/sh
# Warms the build cache: compiles the checker once.
cd "$(dirname "$0")/gltfcheck" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
go build -o /dev/null .
