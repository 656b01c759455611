#!/bin/bash
# Warm the build cache; every check rebuilds what it needs anyway.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
: "${HOME:=/root}"; export HOME
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$here/harness" && go build -o "$tmp/check" ./cmd/check && go build -race -o "$tmp/check.race" ./cmd/check
