#!/bin/bash
# check.sh ID [quick|thorough]: builds the harness against /repo's working tree and runs one check
set -u
ID="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"
HERE="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOSUMDB=off GOWORK=off
export HOME="${HOME:-/root}"
RACE=""
case "$ID" in
C19 | C20) RACE="-race" ;;
esac
OUT="$(mktemp -d /tmp/verif-build.XXXXXX)" || exit 2
trap 'rm -rf "$OUT"' EXIT
if ! (cd "$HERE/harness" && go build -buildvcs=false $RACE -o "$OUT/harness" .) >"$OUT/log" 2>&1; then
	cat "$OUT/log"
	echo "ERROR: the harness does not build against /repo"
	exit 2
fi
"$OUT/harness" run "$ID" "$TIER" "$SEED" "$HERE/evidence"
