#!/bin/bash
# mut.sh ID FILE PYTHON-REPLACE-OLD NEW: run check ID against a scratch copy of /repo with one textual change
set -e
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/. $d/
python3 - "$d/$2" "$3" "$4" <<'P'
import sys
p,o,n=sys.argv[1:4]
s=open(p).read()
assert o in s, "old text not found"
open(p,'w').write(s.replace(o,n,1))
P
VF_REPO=$d python3 /verif/run.py $1 | tail -2 | cut -c1-${CUT:-400}
rm -rf "$d"
