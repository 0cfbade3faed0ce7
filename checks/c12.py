"""C12: a memory pool hands out distinct live objects and recycles only freed ones."""
import itertools
import vf

INV = "SPECIFICATION Spec\nVIEW View\nINVARIANTS LiveSeen Off\nPROPERTIES Distinct Untouched\n"

def setup(p, es, bs, i, d, u, at_once=False):
    s = [("pool", [p, es, bs])]
    if at_once: return s + [("ud", [p, u])] * (u > 1) + [("all", [p, u + 1, i, d])]
    if i or d: s.append(("cb", [p, i, d]))
    if u: s.append(("ud", [p, u]))
    return s

def gen(r, np, sizes, length, maxlive):
    ops, live, on, n = [], {}, {}, 0
    for _ in range(length):
        p = r.randrange(1, np + 1); x = r.random()
        if p not in on:
            ops += setup(p, *r.choice(sizes), *r.choice([(0, 0), (1, 1), (1, 1), (0, 1), (1, 0)]), r.choice([0, 1, 2]), r.random() < .3); on[p] = 1; live[p] = 0
        elif x < .5 and live[p] < maxlive: ops.append(("new", [p, r.randrange(1, 250)])); live[p] += 1
        elif x < .8 and live[p]: ops.append(("free", [p, r.choice([0, live[p] - 1, r.randrange(live[p])])])); live[p] -= 1
        elif x < .92 and live[p]: ops.append(("w", [p, r.randrange(live[p]), r.randrange(1, 250)]))
        elif x < .94: ops.append(("ud", [p, r.randrange(3, 9)]))
        elif x < .96:
            while live[p]: ops.append(("free", [p, r.randrange(live[p])])); live[p] -= 1
            ops.append(("del", [p])); del on[p]
        elif x < .962 and live[p]: ops.append(("delbad", [p]))
    for p in list(on):
        while live[p]: ops.append(("free", [p, r.randrange(live[p])])); live[p] -= 1
        ops.append(("del", [p]))
    return ops

def run(ctx):
    exe = ctx.driver("drv_pool.c")
    ctx.model_check("Mempool", INV, {"NP": 1, "MCFills": "{1, 2}", "MCSeen": 4 if ctx.quick else 5, "MCBlock": 2})
    ctx.model_check("Mempool", INV, {"NP": 2, "MCFills": "{1}", "MCSeen": 2, "MCBlock": 2})
    c = {"NP": 3, "MCFills": "{}", "MCSeen": 0, "MCBlock": 1}
    # every order of at most n allocations and releases, for blocks of two or three objects and every callback set
    seqs = []
    L = 8 if ctx.quick else 10
    for (es, bs), (i, d) in itertools.product([(8, 40), (8, 64), (5, 1)], [(0, 0), (1, 1), (0, 1), (1, 0)]):
        def rec(ops, live, n):
            if n == L or (n and live == 0 and ctx.rng.random() < .5 and ctx.quick):
                s = setup(1, es, bs, i, d, 1, len(seqs) % 4 == 0) + ops + [("free", [1, 0])] * live + [("del", [1])]; seqs.append(s); return
            rec(ops + [("new", [1, 10 + n])], live + 1, n + 1)
            for k in {0, live // 2, live - 1} if live else (): rec(ops + [("free", [1, k])], live - 1, n + 1)
        rec([], 0, 0)
    ctx.rng.shuffle(seqs)
    seqs = seqs[:2500 if ctx.quick else 40000]
    sizes = [(es, bs) for es in (1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 32, 100) for bs in (0, 1, 8, es, es + 8, es + 16, 64, 256, 1000)]
    seqs += [gen(ctx.rng, 3, sizes, 120, r) for r in (3, 10, 30) for _ in range(25 if ctx.quick else 400)]
    seqs += [gen(ctx.rng, 2, [(8, 0), (1, 0), (48, 0), (4096, 0)], 900, 400) for _ in range(2 if ctx.quick else 20)]
    vf.trace_check(ctx, "Mempool", exe, seqs, c, args=["3"], what="memory pools", shards=8)
