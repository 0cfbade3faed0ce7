"""C14: the garbage collector frees every unreachable object by shutdown."""
import random
import vf
from gclib import *

def cycles(r, n, k, pads, hidden=False):
    """Build rings, figures of eight and tangles, let go of them, and collect."""
    ops, ids, hid = [], list(range(1, n + 1)), []; r.shuffle(ids)
    if pads and r.random() < .5: ops.append(("pad", [1, 1024 - r.randrange(2 * n)]))
    for _ in range(r.randrange(1, 4)):
        used = {}
        for o in ids:
            cs = [r.choice(list(used) + [0]) if used and r.random() < .7 else 0 for _ in range(k)]
            ops.append(("new", [o, cs])); used[o] = cs
        for _ in range(r.randrange(1, 2 * n)): ops.append(("set", [r.choice(ids), r.randrange(1, k + 1), r.choice(ids)]))
        if pads and r.random() < .5: ops.append(("pad", [1, 1024 - r.randrange(n + 2)]))
        o = ids[:]; r.shuffle(o)
        keep = r.choice([0, 0, 1])
        if hidden:                      # (one tangle, then a hidden reference from it to an object that comes later)
            free = [i for i in range(n + 1, n + 3) if i not in hid]
            if free:
                h = free[0]; hid.append(h); x = r.choice(ids)
                ops += [("new", [h, [0] * k]), ("set", [h, 1, r.choice([0, h, h])]), ("hold", [x, h])]
        for x in o[keep:]:
            if r.random() < .3: ops.append(("inc", [x])); ops.append(("dec", [x]))
            ops.append(("dec", [x]))
            if pads and r.random() < .1: ops.append(("pad", [1, r.choice([1, 1024])]))
        if keep:
            if r.random() < .5: ops.append(("done", [1]))
            ops.append(("dec", [o[0]]))
        ops.append(("done", [1]))
        if r.random() < .3: ops.append(("unpad", [1]))
    ops.append(("unpad", [1]))
    return ops

def run(ctx):
    exe = ctx.driver("drv_gc.c")
    model(ctx, 2, 2, 1, "TRUE", "TRUE"); model(ctx, 2, 2, 2, "TRUE"); model(ctx, 3, 1, 1, "TRUE")
    if not ctx.quick: model(ctx, 2, 2, 2, "TRUE", "TRUE"); model(ctx, 3, 1, 1, "TRUE", "TRUE")
    if not ctx.quick: model(ctx, 3, 2, 1, "FALSE")
    for n, k, e, lim in ((3, 1, 2, 8000 if ctx.quick else None), (2, 2, 1, None)):
        vf.trace_check(ctx, "Gc", exe, graph_walks(ctx, n, k, e, lim), consts(n, k), args=[str(n), str(k)], what="garbage collector", shards=8)
    q = 1 if ctx.quick else 15
    seqs = [cycles(ctx.rng, n, 2, i % 3 == 0, True) for n in (1, 2, 4) for i in range(30 * q)]
    vf.trace_check(ctx, "Gc", exe, seqs, consts(6, 2), args=["6", "2"], what="garbage collector", shards=8)
    for n, k, cnt in ((3, 2, 150), (6, 2, 80), (12, 3, 25)):
        seqs = [cycles(ctx.rng, n, k, i % 2 == 0) for i in range(cnt * q)]
        vf.trace_check(ctx, "Gc", exe, seqs, consts(n, k), args=[str(n), str(k)], what="garbage collector", shards=8)
    model(ctx, 4, 1, 1, "FALSE", t=2)
    texe = ctx.driver("drv_gc.c", variant="asan+key", name="drv_gc_key", defs=["-DCORK_CONFIG_HAVE_THREAD_STORAGE_CLASS=0"], extra=["-DKEY=1"])
    for e in (exe, texe):
        seqs = [threads(ctx.rng, 4, 2, [cycles(ctx.rng, 4, 2, i % 2 == 0) for _ in range(3)]) for i in range(20 * q)]
        vf.trace_check(ctx, "Gc", e, seqs, consts(12, 2, t=3), args=["12", "2", "3"], what="one garbage collector per thread", shards=8)
