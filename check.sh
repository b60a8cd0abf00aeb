#!/bin/bash
# check.sh ID quick|thorough: decide one property against /repo's current tree.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false"
export PATH="/usr/local/go/bin:$PATH"
export MOLECHECK_ROOT="$here"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
tmp="$(mktemp -d "${TMPDIR:-/tmp}/molecheck-bin.XXXXXX")" || exit 2
trap 'rm -rf -- "$tmp"' EXIT
race=""
export GORACE="halt_on_error=1"
case "$id" in P19|P20|P21) race="-race" ;; esac
if ! (cd "$here/harness" && go build $race -o "$tmp/molecheck" ./cmd/molecheck) >"$tmp/build.log" 2>&1; then
  cat "$tmp/build.log" >&2
  echo "harness does not build" >&2
  exit 2
fi
if [ "$id" = P22 ]; then # the programs under test
  export MOLECHECK_CLI="$tmp/cli" MOLECHECK_WASM="$tmp/mole.wasm" MOLECHECK_WASM_EXEC="$(go env GOROOT)/lib/wasm/wasm_exec.js"
  if ! (cd /repo && go build -o "$MOLECHECK_CLI" ./cli && GOOS=js GOARCH=wasm go build -o "$MOLECHECK_WASM" ./wasm) >"$tmp/build.log" 2>&1; then
    cat "$tmp/build.log" >&2
    exit 2
  fi
fi
"$tmp/molecheck" run -prop "$id" -tier "$tier"
exit $?
