"""C06: a ring buffer is a bounded FIFO queue."""
import random
import vf

CFG = "SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT Emit\nINVARIANT Bounded\nPROPERTY Fifo\n"

def gen(r, cap, length):
    ops, phase = [], .5
    for i in range(length):
        if i % 20 == 0: phase = r.choice([.15, .35, .5, .6, .9])
        ops.append(("add", [r.randrange(1, 100000)]) if r.random() < phase else (r.choice(["pop", "pop", "peek"]), []))
    return ops

def run(ctx):
    exe = ctx.driver("drv_small.c")
    for cap in range(1, 6 if ctx.quick else 8):
        vals = "{1, 2}" if cap <= (4 if ctx.quick else 5) else "{1}"
        edges = ctx.graph("Ring", CFG, {"Cap": cap, "MCVals": vals})
        for how in ("new", "init"):
            vf.replay_graph(ctx, exe, edges, "<<<<>>, 0>>", args=["ring", str(cap), how], what="ring buffer of capacity %d" % cap)
    for cap in (1, 2, 3, 7, 16, 64, 100):
        r = random.Random("%d-%d" % (ctx.seed, cap))
        seqs = [gen(r, cap, 400) for _ in range(2 if ctx.quick else 40)]
        vf.trace_check(ctx, "Ring", exe, seqs, {"Cap": cap, "MCVals": "{}"}, args=["ring", str(cap), "new"], what="ring buffer of capacity %d" % cap, shards=1)
