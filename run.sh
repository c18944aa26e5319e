#!/bin/bash
# run.sh ID: builds the harness against /repo's working tree and runs one check.
# VERIF_SEED and VERIF_TIER select the cases; see DESIGN.md.
set -u
ID="$1"
ROOT="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin
export LANG=C.UTF-8 GOPATH="${GOPATH:-/root/go}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOFLAGS="-mod=mod -buildvcs=false"
export VERIF_ROOT="$ROOT"
BUILD="$ROOT/.build/$ID"
mkdir -p "$BUILD" || exit 2
race=""
case "$ID" in
C13) race="-race"; export GORACE="halt_on_error=1 exitcode=66" ;;
C15) (cd /repo && go build -o "$BUILD/cli" .) || { echo "cannot build the command-line tool" >&2; exit 2; }
     export VERIF_CLI="$BUILD/cli" ;;
esac
(cd "$ROOT/harness" && go build $race -o "$BUILD/vh" ./cmd/vh) || { echo "cannot build the harness" >&2; exit 2; }
exec "$BUILD/vh" check "$ID"
