"""C17: a once-barrier runs its initialisation exactly once, before anyone passes it."""
import itertools
import vf

CFG = "SPECIFICATION Spec\nVIEW View\nINVARIANTS OneRunner\nPROPERTIES OnceOnly NotBefore Forward\n"
# barriers 0 and 1 are plain, 2 and 3 recursive; ("t", [b, n]): go through barrier b, the guarded statement re-enters n
# times (-1: goes through the next barrier instead)
def consts(nt, nb=4, rec="{2, 3}", d=2): return {"NT": nt, "NB": nb, "Recursive": rec, "MCDepth": d}
def th(*bs): return [("t", list(b), "") for b in bs]

def run(ctx):
    ctx.model_check("Once", CFG, consts(3, 2, "{1}", 2 if ctx.quick else 3))
    for nt, rec in ((3, "FALSE"), (3, "TRUE")) if ctx.quick else ((4, "FALSE"), (4, "TRUE"), (3, "TRUE")):
        ctx.model_check("OnceAlgo", "SPECIFICATION Spec\nPROPERTIES Refines Everyone\n", {"NT": nt, "Rec": rec})
    exe = ctx.sched_driver("drv_conc.c")
    sc = []
    for b in ((0, 0), (2, 0), (2, 1), (2, 2)):
        sc += [("once", 0, [th(b)] * n) for n in (2, 3, 4)]
        sc.append(("once", 0, [th(b, b)] * 2))
    for b in ((0, -1), (2, -1)):
        nxt = (1, 0) if b[0] == 0 else (3, 1)
        sc += [("once", 0, [th(b), th(nxt), th(b)]), ("once", 0, [th(b), th(b)]), ("once", 0, [th(nxt, b), th(b, nxt)])]
    sc += [("once", 0, [th((0, 0), (2, 1)), th((2, 1), (0, 0))]), ("once", 0, [th((0, 0), (1, 0)), th((1, 0), (0, 0)), th((0, 0))]),
           ("once", 0, [th(), th((2, 1)), th((2, 1)), th((2, 1))]), ("once", 0, [th((2, 1), (3, 1), (0, 0), (1, 0))] * 3)]
    pre, runs = (2, 1500) if ctx.quick else (4, 60000)
    vf.explore(ctx, "Once", exe, sc, consts(8), "once barrier", maxpre=pre, maxruns=runs)
    ctx.assumptions.append("schedules are sequentially consistent interleavings at the granularity of conflicting accesses; at most %d preemptions" % pre)
