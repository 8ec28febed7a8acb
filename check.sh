#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the checker and decides one property
# for the current source of /repo.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
export PATH=/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here"/checker/*.go "$here"/checker/go.mod "$here"/checker/go.sum "$tmp"/ || exit 2
(cd "$tmp" && go build -trimpath -o "$tmp/checker.bin" .) || { echo "the checker does not build"; exit 2; }
[ "$1" = build ] && exit 0
VERIF_DIR=${VERIF_DIR:-$here} "$tmp/checker.bin" "$1" "${2:-quick}"
