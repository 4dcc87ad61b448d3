#!/bin/bash
# Usage: bash run.sh <property>   (from /verif; decides one property on /repo's working tree)
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
unset GOOS GOARCH
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
if [ -z "${GOCACHE:-}" ] && ! mkdir -p "${HOME:-/nonexistent}/.cache/go-build" 2>/dev/null; then
  export GOCACHE="$tmp/gocache"
fi
mkdir -p "$tmp/src" && cp "$here"/checker/*.go "$here"/checker/go.mod "$here"/checker/go.sum "$tmp/src/"
if ! (cd "$tmp/src" && go build -o "$tmp/aldacheck" .) ; then
  echo "checker does not build" >&2
  exit 3
fi
"$tmp/aldacheck" -property "$1" -repo /repo -verif "$here"
