#!/bin/bash
# Warms the Go build cache (plain and race) so that checks start quickly.
ROOT="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && PATH="$d:$PATH"; done
export PATH
export HOME="${HOME:-/root}"
TMP="$(mktemp -d /tmp/gpegsetup.XXXXXX)" || exit 2
trap 'rm -rf "$TMP"' EXIT
cd "$ROOT/harness" && go build -tags verif -o "$TMP/h" . && go build -race -o "$TMP/hr" . && "$TMP/h" list
