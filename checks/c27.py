"""C27: listing and walking a directory visits exactly what is there, and the callbacks' results decide."""
import vf
from fslib import *
from c26 import TREES, tlatree

CFG = "SPECIFICATION Spec\nVIEW View\nINVARIANTS Complete Nested\nPROPERTIES NeverAgain Over\n"
C0 = {"MCTrees": "{}", "MCRoots": "{}", "MCResults": "{}"}
FLAGS = WRAP + ["-Wl,--wrap=" + x for x in ("opendir", "readdir", "closedir")]

def finite(t):
    """no link refers to itself, or to a directory that (through links) contains it"""
    fs = {tuple(p): [k, l] for p, k, m, l in t}
    def edges(p):
        return [resolve(fs, q) for q in fs if len(q) == len(p) + 1 and q[:len(p)] == p]
    def go(p, above):
        for w in edges(p):
            if w[0] == "loop": return False
            if w[0] == "at" and (w[1] == () or fs[w[1]][0] == "dir"):
                if w[1] in above or w[1] == () or not go(w[1], above | {w[1]}): return False
        return True
    return go((), {()})

def spellings(fs, p, sp):
    """the text of a path below the scratch directory, without final slashes"""
    if sp == 1: return "/".join(["@"] + p)
    if sp == 2: return "/".join(["."] + p)
    if sp == 3: return "//".join(p) if p else "."
    if sp == 4:
        d = [q for q in fs if len(q) == 1 and fs[q][0] == "dir"]
        return "/".join([d[0][0], ".."] + p) if d else "/".join(p or ["."])
    if sp == 5: return "/./".join(["."] + p)
    if sp == 6: return "/".join(["@", "."] + p)
    return "/".join(p) if p else "."

def run(ctx):
    r = ctx.rng
    small = [t for t in TREES if finite(t)]
    more = []
    while len(more) < (8 if ctx.quick else 60):
        t = tree(r, ["a", "b"], 3, .6, .3)
        if finite(t) and 2 < len(t) < 8: more.append(t)
    c = {"MCTrees": "{%s}" % ",".join(map(tlatree, small + more)), "MCRoots": '{<<>>, <<"a">>, <<"b","a">>}', "MCResults": "{0}"}
    ctx.model_check("Walk", CFG, c)
    ctx.model_check("Walk", CFG, dict(c, MCResults="{0,1,-1,5}"))
    exe = ctx.driver("drv_walk.c", ldflags=FLAGS)
    s = []
    def sc(t, kind, p, sp, slashes=0, fo=0, fr=0, nest=0, script=()):
        fs = {tuple(q): [k, l] for q, k, m, l in t}
        s.append(("run", [t, kind, spellings(fs, p, sp) if sp >= 0 else "", p, slashes, fo, fr, nest, list(script)]))
    MAX, MIN = 2**31 - 1, -2**31
    for t in small:
        for kind in ("walk", "list"):
            for p in ([], ["a"], ["b"], ["a", "b"]):
                for sp in range(7): sc(t, kind, p, sp, 0 if sp == 3 else r.choice([0, 1, 3]), nest=r.randrange(2))
            sc(t, kind, ["zz"], -1)
    # every position at which a callback, opening or reading can end a visit
    full = [[["a"], "dir", 0o755, []], [["a", "f"], "file", 0o644, []], [["a", "d"], "dir", 0o755, []], [["a", "d", "g"], "file", 0o644, []], [["b"], "dir", 0o755, []],
            [["c"], "link", 0, ["a"]], [["e"], "link", 0, ["a", "f"]], [["h"], "file", 0o600, []], [["k"], "fifo", 0o600, []], [["x"], "link", 0, ["no"]]]
    for t in (full, full[:5]):
        for kind in ("walk", "list"):
            for i in range(18):
                for v in (1, 2, 5, -1, -7, MAX, MIN): sc(t, kind, [], r.randrange(7), r.randrange(2), nest=r.randrange(2), script=[0] * i + [v])
                sc(t, kind, [], r.randrange(7), 0, fo=i + 1); sc(t, kind, [], r.randrange(7), 0, fr=i + 1)
            for k in range(64): sc(t, kind, [], 0, 0, script=[(k >> j) & 1 for j in range(6)])
    # directories that cannot be read; names of all kinds; wide and deep trees
    for t in ([[["a"], "dir", 0o300, []], [["a", "b"], "file", 0o644, []]], [[["a"], "dir", 0o755, []], [["a", "b"], "dir", 0o300, []], [["a", "c"], "file", 0o644, []]]):
        for kind in ("walk", "list"):
            for p in ([], ["a"]): sc(t, kind, p, 0); sc(t, kind, p, 1, 1, script=[0, 1])
    odd = [".hidden", "..x", "...", " ", "a b", "-r", "*", "~", "a\\b", "\"", "n" * 255, "@", "%s%n", ".a."]
    for kind in ("walk", "list"):
        sc([[[o], r.choice(["file", "dir"]), 0o755, []] for o in odd], kind, [], 0)
        sc([[["d"], "dir", 0o755, []]] + [[["d", o], r.choice(["file", "dir"]), 0o755, []] for o in odd], kind, ["d"], 1, 2)
        sc([[["e%d" % i], r.choice(["file", "dir", "link"]), 0o755, ["e0"] if 0 else ["none"]] for i in range(300 if ctx.quick else 380)], kind, [], 6)
        sc([[["d" * (k + 1) for k in range(n)], "dir", 0o755, []] for n in range(1, 25)], kind, [], 1, nest=1)
        sc([[["n" * 200] * n, "dir", 0o755, []] for n in range(1, 8)], kind, [], 2)
        for k in range(4): sc([], "s" + kind, [], -1, k and 1 if k < 3 else 3, script=[1] * 60 if k < 2 else [1, 1, 1, 9])
    # two chains of links
    lk = [[["a"], "dir", 0o755, []]] + [[["l%d" % i], "link", 0, ["l%d" % (i - 1)] if i else ["a"]] for i in range(7)] + [[["a", "b"], "dir", 0o755, []], [["a", "b", "c"], "file", 0o644, []]]
    for kind in ("walk", "list"):
        sc(lk, kind, [], 0); sc(lk, kind, ["l6"], 1, 1); sc(lk, kind, ["l5", "b"], 2)
    n = 0
    while n < (150 if ctx.quick else 5000):
        t = tree(r, ["a", "b", "cc"], 3, r.choice([.3, .5, .7]), r.choice([0, .2, .4]))
        if not finite(t): continue
        n += 1
        dirs = [[]] + [p for p, k, m, l in t if k in ("dir", "link")]
        p = r.choice(dirs + [[], ["a", "b", "a"]])
        script = [r.choice([0, 0, 0, 0, 1, 1] + ([5, -1] if r.random() < .1 else [])) for _ in range(r.randrange(0, 30))] if r.random() < .6 else []
        sc(t, r.choice(["walk", "walk", "list"]), p, r.randrange(7), r.choice([0, 0, 1, 2]), fo=r.choice([0] * 8 + [1, 2, 3]), fr=r.choice([0] * 8 + [1, 4, 9]), nest=r.randrange(2), script=script)
    with scratch() as sx:
        vf.scenario_check(ctx, "Walk", exe, s, C0, "visits", args=lambda i: [sx.new()], first=lambda sc: [] if sc[0] != "run" or sc[1][1][0] == "s" else [{"op": "tree", "a": [sc[1][0]], "r": 0}])
    ctx.assumptions += ["directory trees without cyclic links", "file and leave callbacks do not return 1 (CORK_SKIP_DIRECTORY)"]
