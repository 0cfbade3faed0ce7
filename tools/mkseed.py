#!/usr/bin/env python3
"""mkseed.py FILE: makes seeded/<id>/ from a description:
   lines 'id:', 'property:', 'needs:', 'breaks:', 'file:' then '<<<' old '===' new '>>>' (repeatable, with further 'file:' lines),
   then 'demo:' and the C program.  The demonstration is built against the sources in the current directory."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SH = '''#!/bin/bash
# builds the demonstration against the library in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
top=$PWD
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
gcc -w -g -O1 %s -I"$top/include" -I"$top/_build/include" "$here/demo.c" "$top/_build/src/libcork.a" -lpthread -o "$d/demo" || exit 2
mkdir "$d/work" && cd "$d/work" || exit 2
timeout 100 "$d/demo"
'''
PRE = """#define _GNU_SOURCE
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include "libcork/core.h"
#include "libcork/ds.h"
#include "libcork/os.h"
#include "libcork/threads.h"
#include "libcork/cli.h"
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "line %d: %s does not hold\\n", __LINE__, #x); _exit(1); } } while (0)

"""
def one(text):
    head, demo = text.split("\ndemo:\n", 1)
    meta, edits, cur, flags = {}, [], None, ""
    lines = head.split("\n"); i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("<<<"):
            old = []; new = []; t = old; i += 1
            while not lines[i].startswith(">>>"):
                if lines[i] == "===": t = new
                else: t.append(lines[i])
                i += 1
            edits.append((cur, "\n".join(old), "\n".join(new)))
        elif l.startswith("file:"): cur = l[5:].strip()
        elif ":" in l: k, v = l.split(":", 1); meta[k.strip()] = v.strip()
        i += 1
    d = os.path.join(V, "seeded", meta["id"]); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed.")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-f", "--detach", w, "HEAD"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        for f, o, n in edits:
            p = os.path.join(w, f); s = open(p).read()
            if s.count(o) != 1: sys.exit("%s: old text found %d times in %s:\n%s" % (meta["id"], s.count(o), f, o))
            open(p, "w").write(s.replace(o, n))
        diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w], stdout=subprocess.DEVNULL)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.c", "w").write(PRE + demo)
    open(d + "/demo.sh", "w").write(SH % meta.get("cflags", "")); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": meta["property"], "needs": meta["needs"], "what_it_breaks": meta["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(meta["id"])
for t in open(sys.argv[1]).read().split("\n#####\n"):
    if t.strip(): one(t.strip("\n") + "\n")
