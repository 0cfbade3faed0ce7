"""C13: the garbage collector never frees an object that is still referenced."""
import random
import vf
from gclib import *

def run(ctx):
    exe = ctx.driver("drv_gc.c")
    model(ctx, 2, 2, 1, "TRUE", "TRUE"); model(ctx, 2, 2, 2, "TRUE"); model(ctx, 3, 1, 1, "TRUE")
    if not ctx.quick: model(ctx, 2, 2, 2, "TRUE", "TRUE"); model(ctx, 3, 1, 1, "TRUE", "TRUE")
    for n, k, e, lim in ((2, 2, 2, None), (3, 1, 1, None), (3, 2, 1, 200000))[:2 if ctx.quick else 3]:
        seqs = graph_walks(ctx, n, k, e, lim)
        vf.trace_check(ctx, "Gc", exe, seqs, consts(n, k), args=[str(n), str(k)], what="garbage collector", shards=8)
    q = 1 if ctx.quick else 15
    for n, k, cnt, ln, pads in ((4, 2, 80, 60, True), (8, 3, 40, 100, True), (8, 2, 30, 120, False), (14, 2, 16, 150, True)):
        seqs = [gen(ctx.rng, n, k, ln, pads, ctx.rng.choice([.3, .6, .9]), i % 2 == 1) for i in range(cnt * q)]
        vf.trace_check(ctx, "Gc", exe, seqs, consts(n, k), args=[str(n), str(k)], what="garbage collector", shards=8)
    for n, k in ((5, 2), (7, 3)):
        seqs = [nested(ctx.rng, n, k) for i in range(60 * q)]
        vf.trace_check(ctx, "Gc", exe, seqs, consts(n, k), args=[str(n), str(k)], what="garbage collector", shards=8)
    model(ctx, 4, 1, 1, "FALSE", t=2)
    for name, defs in (("drv_gc", []), ("drv_gc_key", ["-DCORK_CONFIG_HAVE_THREAD_STORAGE_CLASS=0"])):
        texe = ctx.driver("drv_gc.c", variant="asan+key" if defs else "asan", name=name, defs=defs, extra=["-DKEY=1"] if defs else [])
        for t, n, k in ((2, 5, 2), (3, 3, 2)):
            one = lambda i: nested(ctx.rng, n, k) if n > 4 and i % 3 == 0 else gen(ctx.rng, n, k, 60, i % 3 == 1, .9 if i % 2 else .6)
            seqs = [threads(ctx.rng, n, k, [one(i) for _ in range(t)]) for i in range(20 * q)]
            vf.trace_check(ctx, "Gc", texe, seqs, consts(n * t, k, t=t), args=[str(n * t), str(k), str(t)], what="one garbage collector per thread", shards=8)
