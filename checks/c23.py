"""C23: an executed program gets exactly the specified arguments, environment and cwd."""
import os, vf, shutil

CFG = "SPECIFICATION Spec\nVIEW View\nPROPERTIES Exact Unchanged\n"
ALL = '{"new","newp","newa","add","env","cwd","run","subrun","runfix","free","penv"}'
def q(l): return ",".join('"%s"' % x for x in l)
NAMES = ["A", "AB", "B", "HOME", "LONG", "PATH", "X_Y", "a"]
PROGS = ["@/prog", "@/d1/../prog", "./prog", "pathprog", "@/d1/sub/other prog"]
DIRS = {"@/d1": "@/d1", "d1": "@/d1", "./d1/sub": "@/d1/sub", "d2 x": "@/d2 x", "..": "", "@": "@", "link": "@/d1/sub", "@/d1/": "@/d1"}
BADD = ["nodir", "@/prog", "", "@/d1/none/x"]
BADP = ["@/missing", "@/d1", "@/noexec", "missingprog", "@/prog/x"]
def consts(progs="", params="", dirs="", envs="{}", n=0, ops="{}", up=""):
    d = dict(DIRS); d[".."] = up
    return {"NAMES": "<<%s>>" % q(NAMES), "PROGS": "{%s}" % q(PROGS), "DIRS": " @@ ".join('"%s" :> "%s"' % kv for kv in d.items()),
            "MCProgs": "{%s}" % progs, "MCParams": "{%s}" % params, "MCDirs": "{%s}" % dirs, "MCEnvs": envs, "MCLen": n, "MCOps": ops}

def gen(r, n):
    ops = []
    def word(): return r.choice(["", "a", "-x", "a b", "b", "tab\there", "'\"$HOME*\\", "=", "%s%n", "x" * r.choice([10, 255, 256, 1000, 5000, 100000]), "\xe9"])
    def env(): return [[m, v] for m, v in {r.choice([x for x in NAMES if x != "PATH"]): r.choice(["", "1", "a=b", "x y", "v" * 3000]) for _ in range(r.randrange(0, 6))}.items()]
    path = [["PATH", "@/bin"]]
    while len(ops) < n:
        pe = env() + (path if r.random() < .8 else [])
        ops.append(("penv", [pe]))
        prog = r.choice(PROGS * 3 + BADP)
        k = r.randrange(3); ps = [word() for _ in range(r.choice([0, 1, 2, 3, 7]))]
        if k == 0: ops.append(("new", [prog]))
        else: ops.append((("newp", "newa")[k - 1], [prog, ps]))
        have, cw, he = k == 1 or (k == 2 and ps), None, None
        for _ in range(r.randrange(0, 8)):
            y = r.random()
            if y < .5:
                for _ in range(r.choice([1, 1, 1, 30])): ops.append(("add", [word() if r.random() < .9 else "p"]))
                have = True
            elif y < .65: he = env() + (path if r.random() < .8 else []); ops.append(("env", [he]))
            elif y < .8 and "prog" in prog and prog != "./prog": cw = r.choice(list(DIRS) * 2 + BADD); ops.append(("cwd", [cw]))
            elif have and (prog != "pathprog" or ["PATH", "@/bin"] in (pe if he is None else he)): ops.append(("run", []))
        eff = pe if he is None else he
        if prog == "pathprog" and ["PATH", "@/bin"] not in eff: ops.append(("env", [env() + path])); he = []
        if not have: ops.append(("add", ["only"]))
        ops.append(("run", []))
        good = prog in PROGS and cw not in BADD
        if not good and prog != "./prog": ops.append(("runfix", [word(), r.choice(["d1", "@", "@/d1/"])]))
        y = r.random()
        ops.append(("subrun" if y < .4 else "free", []))
    return ops

def run(ctx):
    d = ctx.path("scratch"); os.makedirs(d + "/d1/sub"); os.makedirs(d + "/d2 x"); os.makedirs(d + "/bin"); os.symlink("d1/sub", d + "/link")
    rep = ctx.driver("report.c", variant="plain")
    for p in ("prog", "bin/pathprog", "d1/sub/other prog"): shutil.copy(rep, d + "/" + p); os.chmod(d + "/" + p, 0o755)
    shutil.copy(rep, d + "/noexec"); os.chmod(d + "/noexec", 0o644)
    up = os.path.dirname(os.path.realpath(d)); d = os.path.realpath(d)
    mc = consts('"@/prog","@/missing"', '"a","b c"', '"d1","nodir"', '{<<>>, <<<<"A","1">>>>}', 2, ALL)
    ctx.model_check("Exec", CFG, consts('"@/prog","@/missing"', '"a","b c",""', '"d1","nodir"', '{<<>>, <<<<"A","1">>>>, <<<<"A","1">>,<<"B","">>>>}', 2, ALL) if not ctx.quick else mc)
    exe = ctx.driver("drv_exec.c")
    edges = ctx.graph("Exec", CFG + "ACTION_CONSTRAINT Emit\n", consts('"@/prog","@/missing"', '"a"' if ctx.quick else '"a","b c"', '"d1","nodir"', '{<<>>, <<<<"A","1">>>>}', 2, ALL))
    vf.replay_graph(ctx, exe, edges, args=[d] + NAMES, what="execution specification", timeout=300)
    r = ctx.rng
    seqs = [gen(r, 60) for _ in range(24 if ctx.quick else 500)]
    seqs.append([("new", ["@/prog"])] + [("add", ["p%d" % i]) for i in range(300)] + [("run", []), ("free", [])])
    vf.trace_check(ctx, "Exec", exe, seqs, consts(up=up), args=[d] + NAMES, what="execution specification")
    ctx.assumptions += ["programs named without a slash are looked up in a PATH that the caller and the attached environment agree on", "a specification has at least one parameter when it is run"]
