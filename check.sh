#!/bin/sh
# Usage: sh check.sh <property id>
# Builds the checker and analyses the current source of /repo.
# Exit 0: the property holds on everything analysed. Exit 1: VIOLATION.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
TMP=$(mktemp -d /tmp/gltfcheck.XXXXXX) || exit 2
trap 'rm -rf "$TMP"' EXIT INT TERM
(cd gltfcheck && go build -o "$TMP/gltfcheck" .) || exit 2
GOMEMLIMIT=12GiB "$TMP/gltfcheck" -repo /repo -verif "$VERIF" -check "$1"
