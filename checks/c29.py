"""C29: path lists keep their order and searches return matches in list order."""
import vf
from fslib import *

CFG = "SPECIFICATION Spec\nVIEW View\nINVARIANTS SplitsBack\nPROPERTIES Agree\n"
def consts(n, trees="{}", strings="{}", rels="{}", m=0):
    return {"NOBJ": n, "MCTrees": trees, "MCStrings": strings, "MCRels": rels, "MCMax": m}
def C(s): return [ord(c) for c in s]
def seq(s): return "<<%s>>" % ",".join(map(str, C(s)))
def sset(l): return "{%s}" % ",".join(map(seq, l))
def tlatree(t): return "<<%s>>" % ",".join('<<<<%s>>,"%s",%d,<<%s>>>>' % (",".join(map(seq, p)), k, m, ",".join(map(seq, l))) for p, k, m, l in t)
def codes(t): return [[[C(x) for x in p], k, m, [C(x) for x in l]] for p, k, m, l in t]

TREES = [
    [],
    [[["a"], "dir", 0o755, []], [["a", "x"], "file", 0o644, []], [["b"], "dir", 0o755, []], [["b", "x"], "dir", 0o755, []]],
    [[["a"], "dir", 0o755, []], [["a", "x"], "link", 0, ["b", "x"]], [["b"], "dir", 0o755, []], [["b", "x"], "link", 0, ["no"]], [["x"], "file", 0o644, []]],
    [[["a"], "dir", 0o600, []], [["a", "x"], "file", 0o644, []], [["b"], "dir", 0o755, []], [["b", "x"], "fifo", 0o644, []]],
    [[["a"], "link", 0, ["b"]], [["b"], "dir", 0o755, []], [["b", "x"], "link", 0, ["b", "x"]]],
]

def gen(r, n):
    ops, live = [], {}
    word = lambda: r.choice(["a", "b", "c", "x", "", ".", "@", "a/x", "/@", "/@/a", "/@/b/", "a/", "b//", "./a", "/nowhere", "a b", "long" * r.choice([1, 10, 60])])
    def rel():
        w = word() if r.random() < .8 else ""
        return "x" if w == "." else w
    ops.append(("tree", [codes(tree(r, ["a", "b", "x"], 2, r.choice([.5, .9]), r.choice([.1, .4]), modes=(0o755, 0o755, 0o755, 0o600)))]))
    for _ in range(n):
        i = r.randrange(1, 4)
        x = r.random()
        if i not in live or x < .05:
            if i in live: ops.append(("free", [i]))
            if r.random() < .2: ops.append(("empty", [i])); live[i] = 0
            else:
                k = r.choice([0, 1, 1, 2, 3, 5, 12])
                t = ":".join(word() for _ in range(k + 1)); ops.append(("new", [i, C(t)])); live[i] = k + 1
        elif x < .3 and live[i] < 40: ops.append(("add", [i, C(word())])); live[i] += 1
        elif x < .6: ops.append(("find", [i, C(rel())]))
        elif x < .9: ops.append(("findall", [i, C(rel())]))
        else: ops.append(("files", [i, [C(word()) for _ in range(r.randrange(4))]]))
    return ops

def run(ctx):
    r = ctx.rng
    exe = ctx.driver("drv_plist.c", ldflags=WRAP)
    strings = ["", ":", "a", "a:b", "b:a", "/@/a:b/", "a:a", ":a:", "b"] + ([] if ctx.quick else ["::", "a::b", "/@:a", "b:./a"])
    c = consts(1, "{%s}" % ",".join(map(tlatree, TREES)), sset(strings), sset(["x", "", "/@/a/x", "x/", "a/x"]), 3 if ctx.quick else 4)
    ctx.model_check("PathList", CFG, c)
    with scratch() as sc:
        g = ctx.graph("PathList", CFG + "ACTION_CONSTRAINT Emit\n", c)
        vf.replay_graph(ctx, exe, g, args=lambda i: [sc.new(), "1"], what="path lists")
        seqs = [gen(r, 30) for _ in range(80 if ctx.quick else 2500)]
        # many placements: a target in every subset of five directories, one entry of which cannot be searched or loops
        for k in range(32):
            t = []
            for d in range(5):
                t.append([["d%d" % d], "dir", 0o755, []])
                if k >> d & 1: t.append([["d%d" % d, "x"], r.choice(["file", "dir", "fifo"]), 0o755, []])
            bad = ["", "", "", "no", "u"][k % 5]
            t.append([["u"], "dir", 0o600, []])
            l = ["d%d" % d for d in r.sample(range(5), 5)]
            if bad: l.insert(r.randrange(6), bad)
            seqs.append([("tree", [codes(t)]), ("new", [1, C(":".join(l))]), ("find", [1, C("x")]), ("findall", [1, C("x")]), ("find", [1, C("y")]), ("findall", [1, C("y")])])
        seqs.append([("new", [1, C(":".join("p%d" % i for i in range(400)))]), ("find", [1, C("x")]), ("findall", [1, C("")]), ("add", [1, C("q" * 100)])])
        vf.trace_check(ctx, "PathList", exe, seqs, consts(3), args=lambda i: [sc.new(), "3"], what="path lists")
    ctx.assumptions += ["no list entry refers to another absolute place that happens to exist"]
