#!/bin/bash
# Soundness battery of the engine: every function of zz.go and zz2.go except ZOk… has a contract that does not
# hold. Prints the functions the engine decides wrongly; exit 0 when there are none.
# usage: selftest/run.sh [engine binary]   (development aid; no check runs it)
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -r -- "$tmp"' EXIT
eng=$1
if [ -z "$eng" ]; then
  eng=$tmp/govc
  (cd "$here/../govc" && GOFLAGS= GOTOOLCHAIN=local GOPROXY=off go build -o "$eng" .) || exit 2
fi
cp -a /repo "$tmp/repo"; cp "$here"/zz*.go "$tmp/repo/utils/"
cp -a "$here/../contracts" "$tmp/contracts"; cp "$here/zz.spec" "$tmp/contracts/zz.spec"
GOVC_SPECS=$tmp/contracts GOVC_ROOT=$tmp/repo timeout 600 "$eng" -v utils.Z >"$tmp/out" 2>&1
want=$(grep -c '^func ' "$here/zz.spec")
got=$(grep -ac '^utils\.Z' "$tmp/out")
bad=$(grep -a '^utils\.Z' "$tmp/out" | awk '{ ok=($1 ~ /\.ZOk/); if (ok && $2!="ok" || !ok && $2=="ok") print $1, $2 }')
echo "selftest: $got of $want contracts decided; decided wrongly: ${bad:-none}"
[ "$got" = "$want" ] && [ -z "$bad" ]
