#!/bin/bash
# usage: tryseed.sh ID [PROPERTY...]: demo on clean and patched scratch copy, then the checks on the patched one
id=$1; shift
s=/tmp/seed/$id; rm -rf /tmp/seed/$id; mkdir -p $s; cp -a /repo $s/repo
cp -r /verif/seeded/$id $s/demo; rm -f $s/demo/*.diff $s/demo/meta.json
cd $s/repo
bash $s/demo/demo.sh > $s/clean.log 2>&1; echo "$id demo clean rc=$? $(tail -1 $s/clean.log | cut -c1-100)"
git apply /verif/seeded/$id/patch.diff || { echo "$id PATCH FAILS"; exit 1; }
bash $s/demo/demo.sh > $s/patched.log 2>&1; echo "$id demo patched rc=$? $(tail -1 $s/patched.log| cut -c1-100)"
for p in ${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}; do
  VERIF_REPO=$s/repo VERIF_BUILD=$s/build VERIF_WORK=$s/work VERIF_OUT=$s/out VERIF_SEED=1 /verif/bin/check $p quick > $s/$p.log 2>&1; echo "$id check $p rc=$? $(grep -c ^VIOLATION $s/$p.log) $(tail -2 $s/$p.log | head -1 | cut -c1-160)"
done
[ -n "$KEEP" ] || rm -rf /tmp/seed/$id
