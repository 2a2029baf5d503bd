#!/bin/bash
# check.sh ID: builds the harness against /repo's working tree and runs the
# check of one property. VERIF_TIER (quick|thorough) and VERIF_SEED are
# honoured. Exit 0 held, 1 violated, 2 error of the check.
# check.sh replay FILE: re-executes one stored case.
ROOT="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$ROOT"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
for d in /opt/veriftools/go1.27.3/bin /usr/local/go/bin; do [ -x "$d/go" ] && PATH="$d:$PATH"; done
export PATH
export HOME="${HOME:-/root}"
unset GODEBUG
TMP="$(mktemp -d /tmp/gpegcheck.XXXXXX)" || exit 2
trap 'rm -rf "$TMP"' EXIT
# C25 and C31 run under the race detector, without the instruction counter of the
# verif tag (its atomic operations would hide races).
opts="-tags verif"
id="$1"
if [ "$1" = replay ]; then grep -q '"property": *"C\(25\|31\)"' "$2" && opts="-race"; fi
case "$id" in C25 | C31) opts="-race" ;; esac
if ! (cd "$ROOT/harness" && go build $opts -o "$TMP/h" .) >"$TMP/build.log" 2>&1; then
  echo "check.sh: the harness does not build" >&2
  cat "$TMP/build.log" >&2
  exit 2
fi
if [ "$1" = replay ]; then
  "$TMP/h" replay "$2"; rc=$?
else
  "$TMP/h" run "$id"; rc=$?
fi
exit $rc
