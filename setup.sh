#!/bin/bash
# Confirms that the verifier builds offline and its solver is present (checks build it again themselves).
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off
export HOME=${HOME:-/root} GOCACHE=${GOCACHE:-/root/.cache/go-build}
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
( cd "$here/govc" && GOFLAGS= GO111MODULE=on go build -o "$work/govc" . ) || exit 1
command -v z3-new >/dev/null || { echo "z3-new missing"; exit 1; }
echo ok
