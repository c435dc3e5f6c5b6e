#!/bin/bash
# run.sh <property id> [tier]  - build the harness against /repo's working tree and check one property
# run.sh replay <file>         - re-judge a saved case
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
export WV_VERIF="${WV_VERIF:-$VERIF}"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
build="$(mktemp -d "${TMPDIR:-/tmp}/wv-build-XXXXXX")" || exit 2
trap 'rm -rf "$build"' EXIT
cp "$VERIF"/harness/*.go "$VERIF"/harness/go.mod "$VERIF"/harness/go.sum "$build"/ || exit 2
cd "$build" || exit 2
# development only: check a copy of the repository
[ -n "${WV_REPO:-}" ] && go mod edit -replace "github.com/ynqa/wego=$WV_REPO"
id="${1:?property id}"
case "$id" in
replay) prop=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1) ;;
*) prop="$id" ;;
esac
CGO_ENABLED=0 go build -buildvcs=false -o wv . >&2 || { echo "ERROR: harness build failed" >&2; exit 2; }
export WV_BIN="$build/wv"
case "$prop" in
C06 | C08 | C14 | C25 | C29 | C33)
	go build -race -buildvcs=false -o wv-race . >&2 || { echo "ERROR: race build failed" >&2; exit 2; }
	export WV_RACE_BIN="$build/wv-race"
	;;
C20 | C21 | C22 | C23 | C27 | C38 | C41)
	CGO_ENABLED=0 go build -buildvcs=false -o wego github.com/ynqa/wego >&2 || { echo "ERROR: wego build failed" >&2; exit 2; }
	export WV_WEGO="$build/wego"
	;;
esac
case "$id" in
replay) ./wv replay "$2" ;;
*) ./wv check "$id" "${2:-${VERIF_TIER:-quick}}" ;;
esac
