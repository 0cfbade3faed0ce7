"""C10: a slice never refers to bytes outside its buffer."""
import random
import vf
from slicelib import *

def run(ctx):
    exe = ctx.driver("drv_slice.c")
    offs = "{-4, -2, -1, 0, 1, 2, 3}"
    for kinds, mh in (('{"static"}', "<<1, {}>>"), ('{"once"}', "<<1, {}>>"), ("{}", "<<1, {1}>>"), ("{}", "<<1, {3}>>")):
        for copy, s, nul in ((COPY, SLICE, NULLS),):
            edges = ctx.graph("Slices", CFG, consts(2, 1, 2, 1, offs, kinds, mh, copy, s, nul))
            vf.replay_graph(ctx, exe, edges, args=args(2, 1, 2, 1), what="slices")
    n = 16 if ctx.quick else 250
    for size in (8, 0, 1, 5):
        seqs = [gen(ctx.rng, 5, 2, size, 150, wild=.4) for _ in range(n if size == 8 else n // 4)]
        vf.trace_check(ctx, "Slices", exe, seqs, consts(5, 2, size, 2), args=args(5, 2, size, 2), what="slices of %d-byte buffers" % size)
    # longer ones
    for size, cnt, ns, ln in ((300, n // 4, 3, 80), (40000, 1 if ctx.quick else 8, 2, 12)):
        seqs = [gen(ctx.rng, ns, 2, size, ln, wild=.2) for _ in range(cnt)]
        vf.trace_check(ctx, "Slices", exe, seqs, consts(ns, 2, size, 2), args=args(ns, 2, size, 2), what="slices of %d-byte buffers" % size)
