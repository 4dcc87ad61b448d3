#!/bin/bash
# Builds the checker once, to prove that it builds offline from the committed files.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src" && cp "$here"/checker/*.go "$here"/checker/go.mod "$here"/checker/go.sum "$tmp/src/"
cd "$tmp/src"
go build -o "$tmp/aldacheck" .
echo built
