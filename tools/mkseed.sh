#!/bin/bash
# usage: mkseed.sh ID PROPERTY LIB "FLAGS" "needs" "breaks"   (patch.diff and demo.cpp already in seeded/ID)
d=/verif/seeded/$1
cp -r /verif/shim $d/; cp /verif/tools/kit/CMakeLists.txt $d/
sed -e "s/@LIB@/$3/" -e "s/@FLAGS@/$4/" /verif/tools/kit/demo.sh > $d/demo.sh; chmod +x $d/demo.sh
case $3 in scipp-variable|scipp-dataset) cp /verif/harness/pch_*.h $d/;; *) sed -i 's/option(VPCH "precompiled headers" ON)/set(VPCH OFF)/' $d/CMakeLists.txt;; esac
python3 - "$@" <<'PY'
import json,sys
_,i,p,l,f,n,b=sys.argv
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f'/verif/seeded/{i}/meta.json','w'),indent=1)
PY
