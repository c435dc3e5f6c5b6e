#!/bin/bash
# Warms the build cache: builds everything the checks build, into a scratch directory.
set -eu
VERIF="$(cd "$(dirname "$0")/.." && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
build="$(mktemp -d "${TMPDIR:-/tmp}/wv-setup-XXXXXX")"
trap 'rm -rf "$build"' EXIT
cp "$VERIF"/harness/*.go "$VERIF"/harness/go.mod "$VERIF"/harness/go.sum "$build"/
cd "$build"
CGO_ENABLED=0 go build -buildvcs=false -o wv .
CGO_ENABLED=0 go build -buildvcs=false -o wego github.com/ynqa/wego
go build -race -buildvcs=false -o wv-race .
