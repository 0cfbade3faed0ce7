"""C31: all library memory goes through the installed allocator, with exact sizes."""
import itertools
import fslib, vf

CFG = "SPECIFICATION Spec\nVIEW View\nPROPERTIES Failing Balance Frame\n"
ENV = {"ASAN_OPTIONS": "allocator_may_return_null=1:detect_leaks=0:abort_on_error=0"}
METHODS = ["xcalloc", "xrealloc", "malloc", "calloc", "realloc"]
ALL = '{"config","malloc","xmalloc","calloc","xcalloc","realloc","xrealloc","xreallocf","free","cfree","strdup","strndup","xstrdup","xstrndup","strfree"}'
def subsets(): return [list(c) for n in range(6) for c in itertools.combinations(METHODS, n)]
def tlaseq(l): return "<<%s>>" % ",".join('"%s"' % m for m in l)
def consts(n, configs=(), sizes=(), counts=(), ops="{}"):
    return {"NOBJ": n, "MCConfigs": "{%s}" % ",".join("<<%d,%s>>" % (k, tlaseq(m)) for k, m in configs),
            "MCSizes": "{%s}" % ",".join(map(str, sizes)), "MCCounts": "{%s}" % ",".join(map(str, counts)), "MCOps": ops}

def gen(r, n, nobj):
    kind = r.randrange(5)
    ops, blk = [("config", [kind, r.choice(subsets()) if kind in (1, 2, 4) else []])], {}
    size = lambda: r.choice([0, 1, 2, 7, 8, 9, 16, 24, 24, 100, 100, 1000, 4096, 65536, r.randrange(300)])
    flt = lambda: int(kind in (1, 2, 4) and r.random() < .25)
    big = lambda: r.choice([-1, -2, -3, -5, -6])
    for _ in range(n):
        i = r.randrange(1, nobj + 1)
        if r.random() < .03:
            ops.append(("exhaust", [r.choice(["malloc", "calloc", "realloc", "strdup", "strndup"]), i if blk.get(i, ("mem",))[0] == "mem" else 0, r.choice([0, 1, 40])])); continue
        if i in blk:
            k, n0 = blk[i]
            if k == "str": ops.append(("strfree", [i])); del blk[i]; continue
            x = r.random()
            if kind in (2, 3) and x < .1: 
                w = r.choice([n0 + 1, n0 - 1 if n0 else 5, n0 + 8, 0 if n0 else 3])
                # (too large a size given to realloc is read beyond the block before it is refused)
                ops.append(("wrong", [i, r.choice(["free", "cfree", "realloc", "xrealloc"] if w < n0 else ["free", "cfree"]), w])); continue
            if x < .3: ops.append(("free", [i])); del blk[i]
            elif x < .5:
                d = r.choice([d for d in range(1, n0 + 1) if n0 % d == 0][:40]) if n0 else r.choice([0, 3])
                c = [n0 // d, d] if n0 else [0, d]
                if r.random() < .5: c.reverse()
                ops.append(("cfree", [i] + c)); del blk[i]
            else:
                op = r.choice(["realloc", "xrealloc", "xreallocf"])
                m, f = size(), 0
                if op != "realloc":
                    f = flt()
                    if r.random() < .1: m = big()
                    fail = f or m < 0
                    ops.append((op, [i, m, f]))
                    if fail:
                        if op == "xreallocf": del blk[i]
                        continue
                else: ops.append((op, [i, m]))
                blk[i] = ("mem", m)
        else:
            op = r.choice(["malloc", "xmalloc", "calloc", "xcalloc", "realloc", "xrealloc", "xreallocf", "strdup", "strndup", "xstrdup", "xstrndup"])
            f, m = flt(), size()
            if "str" in op:
                ops.append((op, [i, m] + ([f] if op[0] == "x" else [])))
                if op[0] != "x" or not f: blk[i] = ("str", m)
            elif op == "calloc":
                c, s = r.choice([0, 1, 3, 10]), r.choice([0, 1, 8, 33]); ops.append((op, [i, c, s])); blk[i] = ("mem", c * s)
            elif op == "xcalloc":
                c, s = r.choice([0, 1, 3, 10, -1, -2, -3] + ([-4] if kind not in (0, 3) else [])), r.choice([0, 1, 8, 33, -1, -3])
                ops.append((op, [i, c, s, f]))
                t = 0 if 0 in (c, s) else -1 if c < 0 or s < 0 else c * s
                if not f and t >= 0: blk[i] = ("mem", t)
            else:
                if op[0] == "x" and r.random() < .1: m = big()
                ops.append((op, [i, m] + ([f] if op[0] == "x" else [])))
                if m >= 0 and not (op[0] == "x" and f): blk[i] = ("mem", m)
    return ops

def run(ctx):
    r = ctx.rng
    exe = ctx.driver("drv_alloc.c")
    some = [(k, m) for k in (1, 4) for m in subsets()] + [(2, m) for m in subsets()[::5]] + [(3, [])]
    ctx.model_check("Alloc", CFG, consts(2, some[::9], (0, 3, 40), (0, 1, 3, 40), ALL))
    g = ctx.graph("Alloc", CFG + "ACTION_CONSTRAINT Emit\n", consts(1, some, (0, 3, 9) if ctx.quick else (0, 1, 3, 9, 40), (0, 1, 3), ALL))
    vf.replay_graph(ctx, exe, g, args=["1"], env=ENV, what="allocators")
    seqs = [gen(r, 80, 6) for _ in range(150 if ctx.quick else 5000)]
    vf.trace_check(ctx, "Alloc", exe, seqs, consts(6), args=["6"], env=ENV, what="allocators")
    # allocators at the end of the process
    ctx.model_check("AllocExit", "SPECIFICATION Spec\nVIEW View\nPROPERTIES Children\n", {"MCMax": 3 if ctx.quick else 4})
    sc = []
    for _ in range(200 if ctx.quick else 6000):
        s, n, d = [r.randrange(3)], 0, 0
        for _ in range(r.randrange(1, 16)):
            k = r.choice([1, 1, 2, 2, 3, 4])
            if n == 0 or k == 1 and n < 30: s += [1, r.choice([n, r.randrange(n + 1), 0]), r.randrange(4), 0]; n += 1
            elif k == 2: d += 1; s += [2, r.randrange(1, n + 1), d, r.choice([0, 1, 1])]
            elif k == 3 and sum(s[1::4][i] == 3 for i in range(len(s[1::4]))) < 6: s += [3, r.randrange(n + 1), 0, 0]
            elif k == 4 and not {3, 4} & set(s[1::4]): s += [4, r.randrange(n + 1), 0, 0]
        sc.append(("run", s))
    vf.scenario_check(ctx, "AllocExit", ctx.driver("drv_allocexit.c"), sc, {"MCMax": 3}, "allocators at exit")
    # objects of every kind under an allocator that keeps account
    hold = ctx.driver("drv_holds.c", ldflags=["-Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "free", "strdup", "strndup")])
    C = lambda n, m: {"NOBJ": n, "Kinds": "1..30", "Single": "{16}", "Ways": "0..3", "MCMax": m}
    ctx.model_check("Holds", "SPECIFICATION Spec\nVIEW View\nINVARIANT OnlyOne\n", C(2, 2))
    with fslib.scratch() as sd:
        dirs = {}
        arg = lambda n: lambda i: [dirs.setdefault(i, sd.new()), str(n)]
        g = ctx.graph("Holds", "SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT Emit\n", dict(C(1, 1), Ways="0..11"))
        vf.replay_graph(ctx, hold, g, args=arg(1), what="objects under an accounting allocator")
        seqs = []
        for _ in range(48 if ctx.quick else 1500):
            live, ops = {}, []
            for _ in range(60):
                i = r.randrange(1, 7)
                if i not in live:
                    k = r.randrange(1, 31)
                    if k == 16 and k in live.values(): continue
                    live[i] = k; ops.append(("new", [i, k]))
                elif r.random() < .75: ops.append(("use", [i, r.randrange(1000)]))
                else: ops.append(("drop", [i])); del live[i]
            seqs.append(ops + [("drop", [i]) for i in sorted(live)])
        vf.trace_check(ctx, "Holds", hold, seqs, C(6, 6), args=arg(6), what="objects under an accounting allocator")
    ctx.assumptions.append("the memory of each thread's error condition is kept until the process ends")
