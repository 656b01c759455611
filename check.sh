#!/bin/bash
# check.sh PROPERTY [flags]: build the check binary against /repo's working
# tree and decide one property. VERIF_SEED and VERIF_TIER select the run.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?usage: check.sh PROPERTY}
shift
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB=* GONOSUMCHECK=1 CGO_ENABLED=${CGO_ENABLED:-1}
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
: "${HOME:=/root}"; export HOME
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
race=
case $id in
C20) race=-race; export GORACE="halt_on_error=1 exitcode=66" ;;
esac
if ! (cd "$here/harness" && go build $race -o "$tmp/check" ./cmd/check) >"$tmp/log" 2>&1; then
    cat "$tmp/log" >&2
    echo "build failed" >&2
    exit 2
fi
"$tmp/check" -verif "$here" -prop "$id" "$@"
