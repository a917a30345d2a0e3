#!/bin/bash
# check.sh <ID> [quick|thorough]      run one check against /repo's working tree
# check.sh --replay <file>            re-run a stored minimal case
# The harness is rebuilt from /repo on every call.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
unset GODEBUG GORACE GOMAXPROCS GOGC GOMEMLIMIT
T="$(mktemp -d)" || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/src" "$T/tmp" || exit 2
cp "$V"/harness/*.go "$V"/harness/go.mod "$V"/harness/go.sum "$T/src"/ || exit 2
build() { # build <output> [flags]
  local o="$1"; shift
  (cd "$T/src" && go build "$@" -o "$o" .) >"$T/build.log" 2>&1 || { cat "$T/build.log" >&2; echo "build failed" >&2; exit 2; }
}
ID="${1:?usage: check.sh ID [tier] | --replay FILE}"
build "$T/harness"
RACE=""
if [ "$ID" = "--replay" ] || "$T/harness" list | grep -q "^$ID true$"; then
  RACE="$T/harness.race"; CGO_ENABLED=1 build "$RACE" -race
fi
export TMPDIR="$T/tmp"
if [ "$ID" = "--replay" ]; then
  "$T/harness" drive -replay "${2:?file}" -racebin "$RACE"
else
  cd "$V" || exit 2
  "$T/harness" drive -prop "$ID" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" -racebin "$RACE" -verif "$V"
fi
exit $?
