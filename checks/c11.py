"""C11: a shared buffer is freed exactly once, after its last reference is dropped."""
import random
import vf
from slicelib import *

def script(r, n):
    ops, held, sl = [], 1, set()
    def holds(): return held or sl
    for _ in range(n):
        x = r.random()
        free = [k for k in range(4) if k not in sl]
        if not holds(): break
        if x < .2: ops.append(("ref", [], "")); held += 1
        elif x < .5 and held: ops.append(("unref", [], "")); held -= 1
        elif x < .7 and held and free: k = r.choice(free); o, m = r.choice([(0, 8), (2, 3), (8, 0), (9, 0), (1, 8)]); ops.append(("slice", [k, o, m], "")); (sl.add(k) if o + m <= 8 else None)
        elif x < .8 and sl and free: k = r.choice(free); ops.append(("copy", [k, r.choice(sorted(sl))], "")); sl.add(k)
        elif x < .9 and sl: k = r.choice(sorted(sl)); ops.append(("finish", [k], "")); sl.discard(k)
        else: ops.append(("read", [], ""))
    rest = [("unref", [], "")] * held + [("finish", [k], "") for k in sl]
    r.shuffle(rest)
    return ops + rest

def run(ctx):
    exe = ctx.driver("drv_slice.c")
    cs = '{"copy","lcopy"}'
    for (ns, nm), kinds, mh in (((2, 1), '{"once","static"}', "<<2, {1,2,3}>>"), ((3, 1), "{}", "<<2, {1}>>"), ((3, 1), '{"once"}', "<<1, {}>>"), ((2, 2), "{}", "<<1, {1}>>"))[:None if not ctx.quick else 4]:
        edges = ctx.graph("Slices", CFG, consts(ns, nm, 1, 1, "{0, 1}" if ns == 2 else "{0}", kinds, mh, cs, '{"slice"}', "{}"))
        vf.replay_graph(ctx, exe, edges, args=args(ns, nm, 1, 1), what="slice and buffer lifetimes")
    seqs = [gen(ctx.rng, 8, 3, 6, 200, wild=.1) for _ in range(24 if ctx.quick else 300)]
    vf.trace_check(ctx, "Slices", exe, seqs, consts(8, 3, 6, 2), args=args(8, 3, 6, 2), what="slice and buffer lifetimes")
    # several threads take and drop references to one buffer
    mc = "SPECIFICATION Spec\nVIEW View\nINVARIANTS NotWhileHeld\nPROPERTIES Alone\n"
    cc = lambda nt: {"NT": nt, "MCSlots": "{1, 2}", "MCHeld": 2}
    ctx.model_check("MbConc", mc, cc(2))
    sx = ctx.sched_driver("drv_conc.c")
    sc = [("mb", 0, [[("read", [], ""), ("unref", [], "")]] * n) for n in (2, 3, 4)]
    sc += [("mb", 0, [[("ref", [], ""), ("unref", [], ""), ("read", [], ""), ("unref", [], "")]] * n) for n in (2, 3)]
    sc += [("mb", 0, [[("slice", [0, 1, 2], ""), ("unref", [], ""), ("copy", [1, 0], ""), ("finish", [0], ""), ("read", [], ""), ("finish", [1], "")]] * n) for n in (2, 3)]
    for _ in range(14 if ctx.quick else 120):
        sc.append(("mb", 0, [script(ctx.rng, ctx.rng.randrange(1, 6)) for _ in range(ctx.rng.choice([2, 2, 3, 4]))]))
    vf.explore(ctx, "MbConc", sx, sc, cc(4), "shared buffer", maxpre=2 if ctx.quick else 4, maxruns=1200 if ctx.quick else 30000,
               first=lambda s: [{"op": "start", "a": [len(s[2])], "r": []}])
    ctx.assumptions.append("schedules are sequentially consistent interleavings at the granularity of conflicting accesses")
