#!/bin/bash
# mut.sh PROP 'python code editing src text via sub(file, old, new)' : run a check against a mutated scratch copy
# usage: mut.sh C17 file old new
set -e
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/src "$d/src"
python3 - "$d/src/uberjob/$2" "$3" "$4" <<'P'
import sys
p,a,b=sys.argv[1:4]
s=open(p).read()
assert a in s, "text not found"
open(p,'w').write(s.replace(a,b,1))
P
RV_SRC="$d/src" python3 /verif/check.py "$1" ${MUTARGS:-} 2>&1 | grep -v observed | cut -c1-250
rm -rf "$d"
