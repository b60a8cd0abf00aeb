#!/bin/bash
# Builds the framework once, so that the Go build cache is warm where it survives.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false"
export PATH="/usr/local/go/bin:$PATH"
mkdir -p "$here/evidence"
tmp="$(mktemp -d)"; trap 'rm -rf -- "$tmp"' EXIT
cd "$here/harness"
go build -o "$tmp/molecheck" ./cmd/molecheck
go build -race -o "$tmp/molecheck-race" ./cmd/molecheck || true
(cd /repo && GOOS=js GOARCH=wasm go build -o "$tmp/mole.wasm" ./wasm) || true
"$tmp/molecheck" list
echo '{"op":"ping"}' | node "$here/ref/server.js" >/dev/null
