#!/bin/bash
# seedtest.sh ID...: with each planted bug applied to /repo: builds, stable tests pass, demo fails, what the check says; then undoes it
for id in "$@"; do
    d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    # the changed lines must be the original repository's
    base=$(git -C /repo rev-list --max-parents=0 HEAD | tail -1)
    orig=$(cd /repo && python3 - $d/patch.diff $base <<'P'
import re,subprocess,sys
f=None; out=[]; new=[]
for l in open(sys.argv[1]):
    if l.startswith("--- a/"): f=l[6:].strip()
    m=re.match(r"@@ -(\d+)",l)
    if m: n=int(m.group(1)); continue
    if f is None or l.startswith(("diff","index","+++","---")): continue
    if l.startswith("-"):
        b=subprocess.check_output(["git","blame","-l","-s","-L%d,%d"%(n,n),"HEAD","--",f]).decode().split()[0].lstrip("^")
        out.append(sys.argv[2].startswith(b[:30])); n+=1
    elif l.startswith(" "): n+=1
print("orig-lines=%d/%d"%(sum(out),len(out)))
P
)
    git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
    t=$(bash /verif/tools/repotest.sh 2>&1 | tail -1)
    (cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1); r=$?
    c=skipped
    [ -n "$NOCHECK" ] || c=$(cd /verif && timeout 900 python3 run.py ${CHECK:-$p} 2>&1 | grep -E "VIOLATION|held|Error" | tail -1 | cut -c1-110)
    git -C /repo checkout -q -- .
    bash /opt/vp/build.sh >/dev/null 2>&1
    (cd /repo && bash $d/demo.sh >/tmp/demo0.out 2>&1); r0=$?
    echo "$id $p $orig | tests: $t | demo with=$r without=$r0 | $c"
done
