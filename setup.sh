#!/bin/bash
# Builds the harness once, plain and with the race detector, to warm the build cache.
set -eu
V="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$V"/harness/*.go "$V"/harness/go.mod "$V"/harness/go.sum "$T/src"/
cd "$T/src"
go build -o "$T/h" .
CGO_ENABLED=1 go build -race -o "$T/hr" .
"$T/h" list >/dev/null
echo "setup done"
