#!/bin/bash
# Runs demo_test.go (beside this file) against the tree in the current folder:
# exit 0 when the demonstrated property holds there.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export HOME=${HOME:-/root} PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GOSUMDB=off
T=$(mktemp -d /tmp/demo-XXXXXX) || exit 2
trap 'rm -rf -- "$T"' EXIT
cp "$R/go.mod" "$T/go.mod"; cp "$D/go.sum" "$T/go.sum"
echo "{\"Replace\":{\"$R/zz_demo_test.go\":\"$D/demo_test.go\"}}" >"$T/overlay.json"
go test -vet=off -count=1 -timeout 250s -modfile "$T/go.mod" -overlay "$T/overlay.json" -run 'TestDemo$' .
