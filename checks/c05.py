"""C05: array element callbacks run in a correct lifecycle for every slot."""
import itertools, random
import vf

def consts(own, re, rm, dn, mx=0, ini=1):
    b = lambda x: "TRUE" if x else "FALSE"
    return {"OWN": b(own), "INI": b(ini), "RE": b(re), "RM": b(rm), "DN": b(dn), "MCMax": mx}

def size_after(n, op):
    o, a = op
    i = a[0] - 1
    n = list(n)
    if o == "app": n[i] += 1
    elif o == "rmr": n[i] -= a[2]
    elif o in ("clear", "renew"): n[i] = 0
    elif o == "copy": n[1 - i] = 0 if 0 <= a[1] < n[i] else n[i]
    return n

FAILS = True          # failing copies are observable (reuse registered, or remove not)

def options(n, small):
    ops = []
    for i in (1, 2):
        if n[i - 1] < small: ops.append(("app", [i]))
        ops += [("clear", [i]), ("renew", [i])]
        for p in range(n[i - 1]):
            for c in range(1, n[i - 1] - p + 1): ops.append(("rmr", [i, p, c]))
        ops.append(("copy", [i, -1]))
        if n[i - 1] and FAILS: ops.append(("copy", [i, n[i - 1] - 1]))
    return ops

def gen(r, length, small):
    n, ops = [0, 0], []
    for _ in range(length):
        o = r.choice(options(n, small)) if r.random() < .5 else ("app", [r.choice([1, 2])])
        if o[0] in ("renew",) and r.random() < .8: continue
        if r.random() < .05: ops.append(("ens", [1, r.randrange(30)]))
        ops.append(o); n = size_after(n, o)
    return ops

def short(r, depth):
    """every history over array 1 (mostly) of the given number of steps after a prefix"""
    res = []
    base = [("app", [1])] * 3
    def rec(n, seq, d):
        if d == 0: res.append(base + seq); return
        opts = [o for o in options(n, 4) if o[1][0] == 1 or (o[0] == "copy")]
        for o in opts: rec(size_after(n, o), seq + [o], d - 1)
    rec([3, 0], [], depth)
    return res

def run(ctx):
    exe = ctx.driver("drv_arraycb.c")
    cfg = "SPECIFICATION Spec\nVIEW View\nINVARIANT Phases\nPROPERTY Finalised\n"
    ctx.model_check("ArrayLife", cfg, consts(0, 1, 1, 1, 2))
    ctx.model_check("ArrayLife", cfg, consts(1, 0, 0, 0, 2))
    # without an init callback, for which the caller fills in new elements
    global FAILS
    FAILS = False
    for c in list(itertools.product((1, 0), repeat=3))[:-1]:      # with none at all there is nothing to observe
        r = random.Random("ni%d%s" % (ctx.seed, c))
        ex = short(r, 2)
        seqs = ex + [gen(r, 60, 5) for _ in range(6 if ctx.quick else 120)]
        vf.trace_check(ctx, "ArrayLife", exe, seqs, consts(0, *c, ini=0), args=["0"] + [str(x) for x in c] + ["12" if c[1] else "8", "1"],
                       what="array callbacks (no init, reuse=%d remove=%d done=%d)" % c)
    combos = [(0,) + c for c in itertools.product((1, 0), repeat=3)] + [(1, 0, 0, 0)]
    for c in combos:
        FAILS = c[0] or c[1] or not c[2]
        r = random.Random("%d%s" % (ctx.seed, c))
        ex = short(r, 2)
        if not ctx.quick: ex += r.sample(short(r, 3), 3000)
        seqs = ex + [gen(r, 120, 30) for _ in range(4 if ctx.quick else 60)] + [gen(r, 60, 5) for _ in range(12 if ctx.quick else 120)]
        vf.trace_check(ctx, "ArrayLife", exe, seqs, consts(*c), args=[str(x) for x in c] + ["12" if c[1] else "8"],
                       what="array callbacks (own=%d reuse=%d remove=%d done=%d)" % c)
