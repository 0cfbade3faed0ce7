"""C01: a hash table is a finite map that iterates in insertion order."""
import vf

INV = """
INVARIANTS TypeOK Functional SizeIsDomain
PROPERTIES OrderStable
"""

def consts(n, ptr, vals="{}", dels="{}"):
    return {"NKeys": n, "PtrKeys": "TRUE" if ptr else "FALSE", "MCVals": vals, "MCDels": dels}

def gen(rng, n, length, nko_bias):
    ops, live = [], []
    for _ in range(length):
        k = rng.randrange(2 * n) if rng.random() < .7 or not live else rng.choice(live)
        x = rng.random()
        if x < nko_bias:
            op = rng.choice(["put", "put", "put0", "goc"])
            ops.append((op, [k, rng.randrange(0, 1000)])); live.append(k)
        elif x < nko_bias + .06:
            ops.append(("sete", [k, rng.randrange(1000)]))
        elif x < .93:
            if live and rng.random() < .7: k = rng.choice(live)
            ops.append((rng.choice(["del", "del", "del0", "dele"]), [k])); live = [x for x in live if x // 2 != k // 2]
        elif x < .97:
            d = rng.sample(range(n), rng.randrange(0, min(n, 10)))
            ops.append(("map", [d, rng.choice([-1, -1, rng.randrange(n)])]))
        elif x < .99:
            ops.append(("ensure", [rng.choice([0, 1, 7, 8, 9, 16, 63, 64, 65, 200, 512])]))
        else:
            ops.append(("clear", [])); live = []
    return ops

def run(ctx):
    exe = ctx.driver("drv_hash.c")
    n = 2
    cfg = "SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT Emit\n" + INV
    edges = ctx.graph("HashTable", cfg, consts(2, False, "{0, 5}", "{<<>>, <<0>>, <<1>>, <<0,1>>}"))
    init = "<<<<>>, <<>>>>"
    modes = [0, 1, 2, 4] if ctx.quick else range(7)
    for m in modes:
        vf.replay_graph(ctx, exe, edges, init, args=["custom", str(m), "2", "0"], what="hash table, hash mode %d" % m)
    vf.replay_graph(ctx, exe, edges, init, args=["string", "0", "2", "0"], what="string-keyed hash table")
    if not ctx.quick:
        edges3 = ctx.graph("HashTable", cfg, consts(3, False, "{5}", "{<<>>, <<0>>, <<0,2>>, <<0,1,2>>}"))
        for m in (0, 3):
            vf.replay_graph(ctx, exe, edges3, init, args=["custom", str(m), "3", "0"], what="hash table (3 keys), hash mode %d" % m)
    edgesp = ctx.graph("HashTable", cfg, consts(1, True, "{0, 5}", "{<<>>, <<0>>, <<1>>, <<0,1>>}"))
    vf.replay_graph(ctx, exe, edgesp, init, args=["pointer", "0", "1", "0"], what="pointer-keyed hash table")
    # traces of the real code, long enough to grow the table several times
    rng = ctx.rng
    plan = [("custom", m, 110, 0) for m in range(7)] + [("string", 0, 90, 3), ("pointer", 0, 60, 20), ("custom", 2, 12, 0), ("custom", 0, 12, 1000)]
    scale = 1 if ctx.quick else 12
    import concurrent.futures as cf
    def one(p):
        kind, m, nk, ini = p
        r = __import__("random").Random((ctx.seed, p).__repr__())
        seqs = []
        for i in range(scale):
            ops = gen(r, nk, 260, .85) if nk > 20 else []
            ops += gen(r, nk, 140 if nk > 20 else 300, r.choice([.3, .5, .6]))
            seqs.append(ops)
        if nk > 20:
            # fill the table through each of the inserting operations, so that each of them makes it grow
            for op, pad in (("goc", 0), ("goc", 2), ("put", 0), ("put0", 2)) if not ctx.quick or m in (2, 4, 5) else (("goc", r.choice([0, 2])), ("put", 0)):
                ks = [2 * k for k in range(nk)]; r.shuffle(ks)
                seqs.append([("ensure", [0])] * pad + [(op, [k, k + 1]) for k in ks])
        vf.trace_check(ctx, "HashTable", exe, seqs, consts(nk, kind == "pointer"), args=[kind, str(m), str(nk), str(ini)],
                       what="hash table (%s, hash mode %d, initial size %d)" % (kind, m, ini), shards=1 if ctx.quick else 4)
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(one, plan))
    # tables that hold many entries
    ctx.model_check("HashFill", "SPECIFICATION Spec\nVIEW View\nINVARIANTS Once\nPROPERTIES Stable Exact\n", {"MCMax": 3 if ctx.quick else 4})
    fexe = ctx.driver("drv_hashfill.c")
    def big(r, n):
        ops, m = [], 0
        if r.random() < .4: ops.append(("ensure", [0, r.choice([1, 255, 256, 1000, n]), 1]))
        for _ in range(r.choice([2, 4, 6])):
            a, b = sorted(r.randrange(n + 1) for _ in "ab")
            if r.random() < .5: a = 0
            if r.random() < .3: b = n
            x = r.random()
            ops.append((r.choice(["put", "put0", "goc", "goc"]) if x < .6 or not m else r.choice(["del", "dele", "map"]), [a, b, r.choice([1, 1, 2, 3, 7])])); m += 1
        return ops + r.choice([[], [("clear", []), ("goc", [0, min(n, 300), 1])]])
    for kind, m, n, k in (("custom", 0, 3000, 6), ("custom", 1, 1500, 6), ("custom", 2, 3000, 3), ("custom", 3, 1500, 3), ("string", 0, 3000, 4), ("pointer", 0, 3000, 4), ("custom", 0, 70000, 1), ("string", 0, 70000, 1)):
        seqs = [big(rng, n) if n < 9999 else [(rng.choice(["goc", "put"]), [0, n, 1]), ("ensure", [0, n, 1]), (rng.choice(["del", "dele"]), [0, n, 3])] for _ in range(k * scale if n < 9999 else k)]
        if seqs: vf.trace_check(ctx, "HashFill", fexe, seqs, {"MCMax": 0}, args=[kind, str(m), str(n), "0"], what="hash table with many entries", shards=2)
