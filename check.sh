#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the verifier from /verif/govc and decides one property on /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off
export HOME=${HOME:-/root}
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
( cd "$here/govc" && GOFLAGS= GO111MODULE=on go build -o "$work/govc" . ) || { echo "cannot build the verifier"; exit 2; }
"$work/govc" check -verif "$here" -root /repo -tier "${2:-${VERIF_TIER:-quick}}" "$1"
