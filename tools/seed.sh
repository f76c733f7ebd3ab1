#!/bin/bash
# usage: seed.sh ID PROPERTY PKG  -- /tmp/seed/ID/{edit.py|patch applied in /tmp/seedtree}, needs.txt, breaks.txt, demo_test.go
# Takes the diff of /tmp/seedtree (a copy of /repo) and stores the seeded change after confirming it.
set -e
id=$1 prop=$2 pkg=$3 src=/tmp/seed/$1
out=/verif/seeded/$id
mkdir -p $out
git -C /tmp/seedtree diff > $out/patch.diff
[ -s $out/patch.diff ] || { echo "$id: empty patch"; exit 1; }
cp $src/demo_test.go $out/demo_test.go
sed "s/@PKG@/$pkg/g" /verif/tools/demo.sh.tmpl > $out/demo.sh; chmod +x $out/demo.sh
python3 - "$prop" "$src" "$out" <<'PY'
import json,sys
p,s,o=sys.argv[1:]
json.dump({"property":p,"needs":open(s+"/needs.txt").read().strip(),"what_it_breaks":open(s+"/breaks.txt").read().strip()},open(o+"/meta.json","w"),indent=1)
PY
( cd /tmp/seedtree && git stash -q && if ! bash $out/demo.sh >/tmp/seed/$id/clean.log 2>&1; then echo "$id: demo fails on clean tree"; tail -5 /tmp/seed/$id/clean.log; fi; git stash pop -q; if bash $out/demo.sh >/tmp/seed/$id/bug.log 2>&1; then echo "$id: demo passes with the bug"; fi )
echo "$id: demo confirmed"
