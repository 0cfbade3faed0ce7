"""C32: command-line dispatch selects exactly the named subcommand or help."""
import vf

CFG = "SPECIFICATION Spec\nVIEW View\nPROPERTIES OneLeaf HelpAfterName\n"
FLAGS = ["-", "-a", "--", "-z", "-o", "-h", "--help", "--flag=x", "-hx", "-n"]
def tl(x): return '"%s"' % x if isinstance(x, str) else str(x) if isinstance(x, int) else "<<%s>>" % ",".join(map(tl, x))
def consts(trees=(), words=(), n=0):
    return {"FLAGS": "{%s}" % ",".join(map(tl, FLAGS)), "MCTrees": "{%s}" % ",".join(map(tl, trees)), "MCWords": "{%s}" % ",".join(map(tl, words)), "MCLen": n}
def node(kind, name, p, kids=(), texts=7, i=[0]):
    i[0] += 1; n = i[0]
    return [kind, name, p, "SD%d" % n if texts & 1 else "", "US%d" % n if texts & 2 and not kind else "", "FH%d" % n if texts & 4 and not kind else "", list(kids)]

def tree(r):
    """a random tree; node 1 is the root (mostly a set)"""
    nodes = []
    names = ["add", "adder", "ad", "a", "print", "q1", "q_2", "PRINT", "exit3", "prog", "-n", "x" * 40, "f:le", "helpx", "h"]
    def make(depth):
        me = len(nodes); nodes.append(None)
        kind = 1 if depth == 0 and r.random() < .95 else int(depth < 4 and r.random() < .45)
        kids = []
        if kind:
            for _ in range(r.choice([0, 1, 2, 2, 3, 4])):
                if len(nodes) < 20: kids.append(make(depth + 1) + 1)
        nodes[me] = node(kind, r.choice(names + (["help"] if depth and r.random() < .1 else [])), r.choice([0, 0, 1, 2, 2, 3]), kids, r.choice([7, 7, 3, 5, 6, 0, 1]))
        return me
    make(0)
    nodes[0][1] = "prog"
    return nodes

def vector(r, t):
    w, n = ["prog"] if r.random() < .8 else ["./some/prog"], 0
    def flags(p):
        if p == 2:
            w.extend(r.choice([[], ["-a"], ["-a", "--flag=x"], ["-"], ["--"], ["-a", "--", "-a"], ["-z"], ["-a", "-h"], ["-hx"]]))
        elif p == 3: w.extend(r.choice([[], ["-o", "add"], ["-o", "-h"], ["-o"], ["-o", "help", "-o", "x"]]))
    while True:
        k = t[n]
        y = r.random()
        if y < .12: w.append(r.choice(["-h", "--help"]))
        elif y < .5: flags(k[2])
        elif y < .56: w.append(r.choice(FLAGS))
        if not k[0]: break
        y = r.random()
        if y < .12: w.append("help")
        elif y < .2: return w
        if y < .28 or not k[6]: w.append(r.choice(["zz", "", "hel", "ad", "add", "prog", "HELP", "-h", "help"])); 
        if not k[6]: return w + r.choice([[], ["x"]])
        n = r.choice(k[6]) - 1; w.append(t[n][1])
    for _ in range(r.choice([0, 0, 1, 2, 5, 30])): w.append(r.choice(["a", "-h", "", "exit3", "help", "--", "-a", "x y", "\"q\\", "add", "y" * 3000]))
    return w

def gen(r, n):
    ops = []
    while len(ops) < n:
        if ops: ops.append(("reset", []))
        t = tree(r); ops.append(("tree", [t]))
        for _ in range(r.choice([10, 40])): ops.append(("main", [vector(r, t)]))
    return ops

def run(ctx):
    L = lambda name, p, **k: node(0, name, p, **k)
    S = lambda name, p, kids, **k: node(1, name, p, kids, **k)
    trees = [
        [S("prog", 0, [2, 3]), L("add", 0), S("set", 0, [4, 5]), L("add", 2), L("set", 0, texts=0)],
        [S("prog", 2, [2, 3, 4]), L("add", 2, texts=3), S("set", 2, [5]), L("add", 0), L("add", 1)],
        [S("prog", 3, [2, 3], texts=0), S("add", 1, []), S("set", 3, [4]), L("set", 3, texts=5)],
        [L("prog", 2)],
    ]
    words = ["add", "set", "help", "-h", "-a", "-z", "-o", "--"]
    small = [["add", "set", "help", "-h", "-o"]]
    ctx.model_check("Cli", CFG, consts(trees, words + ["--help", "zz"], 4 if ctx.quick else 5))
    exe = ctx.driver("drv_cli.c", variant="asan")
    edges = ctx.graph("Cli", CFG + "ACTION_CONSTRAINT Emit\n", consts(trees, words, 3 if ctx.quick else 4))
    vf.replay_graph(ctx, exe, edges, what="command-line specification", timeout=600, max_len=800)
    r = ctx.rng
    seqs = [gen(r, 150) for _ in range(16 if ctx.quick else 600)]
    vf.trace_check(ctx, "Cli", exe, seqs, consts(), what="command-line specification")
    ctx.assumptions += ["every name and text of the tree is one word distinct from the library's own wording; the wording and layout of help are not fixed, only the full name and the texts it must contain in order",
                        "an option parser returns how many words it took, the command's name included"]
