#!/usr/bin/env python3
"""setup_cmd: verify that the toolchain the checks need is present and that
every specification parses.  Builds nothing that the checks depend on: each
check builds libcork's sources from /repo's working tree by itself."""
import concurrent.futures as cf
import glob, os, shutil, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
for t in ("gcc", "java", "ar"):
    if not shutil.which(t):
        sys.exit("missing tool " + t)
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
def parse(f):
    p = subprocess.run(["java", "-cp", TLA, "tla2sany.SANY", os.path.basename(f)], cwd=os.path.dirname(f),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return f, p.returncode, p.stdout.decode("utf-8", "replace")
bad = 0
with cf.ThreadPoolExecutor(4) as ex:
    for f, rc, out in ex.map(parse, sorted(glob.glob(V + "/specs/*.tla"))):
        if rc:
            bad = 1
            print(f, out)
os.makedirs(V + "/evidence", exist_ok=True)
print("setup ok" if not bad else "setup failed")
sys.exit(bad)
