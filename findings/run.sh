#!/bin/bash
# Runs the defect demonstrations against /repo (by hand; no check uses this).
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp); trap 'rm -f "$o"' EXIT
echo "{\"Replace\":{\"/repo/internal/zz_defects_verif_test.go\":\"$d/defects_verif_test.go\"}}" >"$o"
cd /repo && go test -vet=off -count=1 -overlay "$o" "$@" ./internal
