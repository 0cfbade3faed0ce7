"""C26: creating, removing and querying files acts exactly as specified on the tree."""
import vf
from fslib import *

CFG = "SPECIFICATION Spec\nVIEW View\nINVARIANTS Shape\nCONSTRAINT Bound\nPROPERTIES Query Adds Removes Success\n"
def consts(nobj, ps, trees="{}", mp="{}", modes="{}", ops="{}", level=0):
    return {"NOBJ": nobj, "PATHS": "<<%s>>" % ",".join(map(tla, ps)), "MCTrees": trees, "MCPaths": mp, "MCModes": modes, "MCOps": ops, "MCLevel": level}

def tlatree(t): return "<<%s>>" % ",".join('<<%s,"%s",%d,%s>>' % (tla(p), k, m, tla(l)) for p, k, m, l in t)

# small trees: links to directories, files and nothing, inside and outside of what is removed
TREES = [
    [],
    [[["a"], "dir", 0o755, []], [["b"], "file", 0o644, []]],
    [[["a"], "dir", 0o755, []], [["a", "b"], "dir", 0o700, []], [["a", "b", "a"], "file", 0o600, []], [["b"], "link", 0, ["a", "b"]]],
    [[["a"], "dir", 0o755, []], [["a", "a"], "file", 0o644, []], [["b"], "dir", 0o755, []], [["b", "a"], "link", 0, ["a"]], [["b", "b"], "link", 0, ["a", "a"]]],
    [[["a"], "link", 0, ["b"]], [["b"], "link", 0, ["a", "a"]]],
    [[["a"], "dir", 0o755, []], [["a", "a"], "link", 0, ["a", "b"]], [["b"], "link", 0, ["a", "a", "b"]]],
    [[["a"], "dir", 0o711, []], [["a", "b"], "link", 0, []], [["b"], "dir", 0o755, []], [["b", "b"], "dir", 0o755, []], [["b", "b", "b"], "dir", 0o755, []]],
    [[["a"], "fifo", 0o600, []], [["b"], "link", 0, ["a"]]],
]

class Sim:
    """just enough of a model to generate interesting sequences"""
    def __init__(self): self.fs = {}
    def load(self, t): self.fs = {tuple(p): [k, l] for p, k, m, l in t}

def gen(r, ps, names, depth, n):
    ops, live, sim = [], {}, Sim()
    while len(ops) < n:
        t = tree(r, names, depth, r.choice([.3, .6, .9]), r.choice([0, .2, .5]), odd=r.choice([0, 0, .15]))
        sim.load(t)
        ops.append(("tree", [t]))
        if r.random() < .4: ops.append(("umask", [r.choice([0, 0o22, 0o27, 0o77, 0o2])]))
        for _ in range(r.choice([1, 2, 4])):
            s = r.choice(range(1, 4))
            p = r.choice(ps)
            if r.random() < .5:
                ex = [list(q) for q in sim.fs]
                if ex: p = r.choice(ex)
            sp = r.randrange(6)
            w = resolve(sim.fs, p, False)
            if sp == 4 and w[0] == "at" and w[1] and sim.fs[w[1]][0] == "link": sp = 0
            if s in live: ops.append(("free", [s]))
            ops.append(("new", [s, p, sp])); live[s] = (p, sp)
            for _ in range(r.choice([0, 1, 2])): ops.append((r.choice(["exists", "type"]), [s]))
            x, fl, mode = r.random(), r.randrange(4), r.choice([0o777, 0o755, 0o700, 0o711, 0o1777, 0o770])
            if x < .3: ops.append(("mkdir", [s, mode, fl]))
            elif x < .6: ops.append(("remove", [s, fl]))
            elif x < .7: ops.append(("mkdirx", [s, mode, fl, r.choice([1, 1, 2, 3]), 0]))
            elif x < .8: ops.append(("removex", [s, fl, r.choice([1, 2, 3, 5]), 0]))
            elif x < .87:
                w = resolve(sim.fs, p)
                if w[0] == "missing" and resolve(sim.fs, p, False) == w and sp != 4 and sp != 5 and w[1] not in sim.fs: ops.append(("race", [s, r.choice([0o755, 0o700]), fl]))
            for k in list(live):
                if r.random() < .3: ops.append((r.choice(["exists", "type"]), [k]))
                if r.random() < .2: ops.append((r.choice(["mkdir"]), [k, mode, r.randrange(4)]) if r.random() < .5 else ("remove", [k, r.randrange(4)]))
        if len(ops) < n:
            for s in list(live): ops.append(("free", [s]))
            live = {}
    return ops

def stale(r, ps, names, depth, n):
    """What one object knows of a path is changed behind its back by another before it is used."""
    ops = []
    while len(ops) < n:
        t = tree(r, names, depth, r.choice([.3, .6, .9]), r.choice([0, .2]))
        ops.append(("tree", [t]))
        p = r.choice([q[0] for q in t] or ps) if r.random() < .6 else r.choice(ps)
        q = p if r.random() < .7 or len(p) < 2 else p[:-1]
        ops += [("new", [1, p, 0]), ("new", [2, q, 0])]
        for _ in range(r.choice([1, 2, 3])):
            ops.append((r.choice(["exists", "type"]), [1]))
            for who in r.choice([[2, 1], [2, 1], [2, 2, 1], [1, 2, 1]]):
                ops.append(("mkdir", [who, r.choice([0o755, 0o700]), r.choice([0, 1, 2, 3])]) if r.random() < .5 else ("remove", [who, r.choice([0, 1, 2, 3, 3])]))
        ops += [(r.choice(["exists", "type"]), [1]), ("free", [1]), ("free", [2])]
    return ops

def run(ctx):
    r = ctx.rng
    names = ["a", "b"]
    ps = paths(names, 3)
    trees = "{%s}" % ",".join(map(tlatree, TREES))
    mp = "{%s}" % ",".join(tla(p) for p in ps)
    ALL = '{"tree","new","free","exists","type","mkdir","remove"}'
    exe = ctx.driver("drv_files.c", ldflags=WRAP)
    ctx.model_check("Files", CFG, consts(1, ps, trees, mp , "{493}", ALL, 6 if ctx.quick else 9))
    with scratch() as sc:
        # one object: every small tree, path (with or without a final slash) and operation
        edges = ctx.graph("Files", CFG + "ACTION_CONSTRAINT Emit\n", consts(1, ps, trees, "{%s}" % ",".join(tla(p) for p in ps if len(p) < 3 or p == ["a", "b", "b"]), "{493}", ALL, 6 if ctx.quick else 9))
        vf.replay_graph(ctx, exe, edges, args=lambda i: [sc.new()] + ["/".join(p) for p in ps], what="files")
        ps4 = paths(["a", "b", "l"], 3)
        seqs = [gen(r, ps4, ["a", "b", "l"], 3, 25) for _ in range(100 if ctx.quick else 3000)]
        vf.trace_check(ctx, "Files", exe, seqs, consts(3, ps4), args=lambda i: [sc.new()] + ["/".join(p) for p in ps4], what="files")
        seqs = [stale(r, ps4, ["a", "b", "l"], 3, 25) for _ in range(100 if ctx.quick else 3000)]
        vf.trace_check(ctx, "Files", exe, seqs, consts(3, ps4), args=lambda i: [sc.new()] + ["/".join(p) for p in ps4], what="files")
        # many entries, deep nesting and long names
        wide = [["w"]] + [["w", "e%03d" % i] for i in range(250)]
        deep = [["d"] * k for k in range(1, 13)]
        long = [["n" * 200], ["n" * 200, "m" * 255], ["n" * 200, "m" * 255, "o" * 100]]
        pl = wide + deep + long
        def full(l): return ("tree", [[[p, "dir" if any(q[:len(p)] == p and len(q) > len(p) for q in l) or r.random() < .3 else "file", 0o755, []] for p in l]])
        def run1(p, o, sp): return [("new", [1, p, sp]), o, ("exists", [1]), ("free", [1])]
        sq = [[full(wide)] + run1(["w"], ("remove", [1, f]), sp) for f in (0, 1) for sp in (0, 1)]
        sq += [[full(deep)] + run1(["d"] * k, ("remove", [1, 1]), 0) + run1(["d"] * 12, ("mkdir", [1, 0o750, 3]), r.randrange(6)) for k in (1, 5, 12)]
        sq += [run1(p, ("mkdir", [1, 0o755, 1]), sp) + run1(p[:1], ("remove", [1, 1]), 0) for p in (deep[-1], long[-1]) for sp in range(6)]
        vf.trace_check(ctx, "Files", exe, sq, consts(1, pl), args=lambda i: [sc.new()] + ["/".join(p) for p in pl], what="files", shards=1)
    ctx.assumptions += ["paths with a trailing slash do not name symbolic links", "the scratch file system behaves like a local Linux file system; the driver runs as an unprivileged user"]
