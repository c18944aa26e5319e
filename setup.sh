#!/bin/bash
# Builds the harness once, so that the checks find a warm build cache.
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 GOPATH="${GOPATH:-/root/go}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOFLAGS="-mod=mod -buildvcs=false"
cd "$ROOT/harness" && go build -o "$ROOT/.build/vh" ./cmd/vh && go build -race -o "$ROOT/.build/vh-race" ./cmd/vh
