"""C21: a child's output is delivered completely, in order, with one end-of-stream."""
import itertools
import vf
from sublib import *

def run(ctx):
    model(ctx)
    A = {"Kids": "{1}", "MaxScript": 3, "Cap": 1, "NonBlocking": "TRUE"}
    cfg = "SPECIFICATION Spec\nINVARIANT Complete\nPROPERTY Terminates\n"
    ctx.model_check("SubprocAlgo", cfg, A, extra=())
    if not ctx.quick: ctx.model_check("SubprocAlgo", cfg, dict(A, Kids="{1, 2}", MaxScript=2), extra=())
    # with blocking reads the same loop deadlocks: the property is not vacuous
    out = ctx.model_check("SubprocAlgo", cfg, dict(A, NonBlocking="FALSE"), extra=(), expect_ok=False)
    if "Terminates" not in out and "eadlock" not in out: raise vf.CheckError("blocking loop should not terminate: " + out[-500:])
    exe = ctx.driver("drv_sub.c", ldflags=LD)
    r = ctx.rng
    sc = []
    # one child, every short order of writing and closing, with small and pipe-filling writes
    acts = [w(1, 1), w(2, 1), w(1, 70000), w(2, 70000), w(1, 4096), cl(1), cl(2)]
    for n in range(0, 4):
        for s in itertools.product(acts, repeat=n):
            if any(a[0] == 2 and any(b[1] == a[1] for b in s[i + 1:]) for i, a in enumerate(s)): continue
            if n == 3 and r.random() > (.25 if ctx.quick else 1): continue
            how = r.choice([[(START, 0), (WAIT, 0)], [(START, 0), (LOOP, 0)], [(START, 1), (LOOP, 1), (WAIT, 1)], [(START, 0), (WAIT, 0), (WAIT, 0), (FIN, 0), (DRAIN, 0)]])
            sc.append(scen([kid(s, mode=1 if r.random() < .15 else 0, code=r.choice([0, 0, 5]))], how))
    # draining never blocks and takes everything that is there: step by step
    for a, b, c in itertools.product(SIZES[:8], [0, 1, 4096, 30000], [1, 2]):
        s = [wt(0), w(c, a)] + ([w(3 - c, b)] if b else []) + [sig(1), wt(2), w(c, 3), sig(3), wt(4)]
        sc.append(scen([kid(s)], [(START, 0), (DRAIN, 0), (DRAIN, 0), (FIN, 0), (GO, 0), (AWAIT, 1), (DRAIN, 0), (DRAIN, 0), (GO, 2), (AWAIT, 3), (DRAIN, 0), (FIN, 0), (GO, 4), (WAIT, 0), (FIN, 0), (DRAIN, 0)])) if a + b < 65536 else None
    # only one of the streams has a consumer, or none
    for o, e in ((1, 0), (0, 1), (0, 0)):
        for s in ([w(1, 10), w(2, 20)], [w(2, 70000), w(1, 70000)], [w(1, 5000), cl(1), w(2, 5000)], []):
            for m in (0, 1): sc.append(scen([kid(s, m, o, e)], [(START, 0), (WAIT, 0), (FIN, 0)]))
    # groups: several children, each with its own streams, interleaved by chance and by the scripts
    for _ in range(60 if ctx.quick else 2500):
        nk = r.randrange(1, 6)
        kids = []
        for k in range(nk):
            s, open_ = [], [1, 2]
            for _ in range(r.randrange(0, 9)):
                if not open_: break
                x = r.random()
                if x < .8: s.append(w(r.choice(open_), r.choice(SIZES) if r.random() < .35 else r.randrange(1, 6000)))
                elif x < .88: s.append(nap(r.randrange(0, 3000)))
                elif x < .95: c = r.choice(open_); open_.remove(c); s.append(cl(c))
            tot = {1: 0, 2: 0}
            for a in s:
                if a[0] == 1: tot[a[1]] += a[2]
            while tot[1] > 290000 or tot[2] > 290000:
                a = s.pop(); tot = {t: sum(b[2] for b in s if b[0] == 1 and b[1] == t) for t in (1, 2)}
            kids.append(kid(s, mode=1 if r.random() < .2 else 0, code=r.choice([0, 0, 1, 77])))
        grp = r.random() < .8
        ops = [(START, 0)] if grp and r.random() < .8 else [(START, k + 1) for k in range(nk)]
        x = r.random()
        ids = list(range(1, nk + 1)); r.shuffle(ids)
        if grp and x < .5: ops += [(r.choice([WAIT, LOOP]), 0)]
        elif grp and x < .6: ops += [(DRAIN, 0), (SLEEP, 1000), (DRAIN, 1), (FIN, 0), (WAIT, 0)]
        elif x < .8: ops += [(r.choice([WAIT, LOOP]), i) for i in ids]
        else: ops += [(DRAIN, i) for i in ids] + [(FIN, i) for i in ids] + [(WAIT, i) for i in ids]
        ops += [(FIN, i) for i in ids] + ([(FIN, 0), (WAIT, 0), (DRAIN, 0)] if grp else [])
        sc.append(scen(kids, ops, grp, tick=1 if r.random() < .25 else 0))
    # the child makes progress, or ends, between the parent's reads and its look at whether the child has exited
    for n in range(1, 4):
        for q in itertools.product([w(1, 5), w(2, 5), cl(1), cl(2), nap(15000)], repeat=n):
            if any(a[0] == 2 and any(b[0] < 3 and b[1] == a[1] for b in q[i + 1:]) for i, a in enumerate(q)): continue
            if q[-1] == nap(15000) or (n == 3 and r.random() > (.3 if ctx.quick else 1)): continue
            i, (o, e) = r.choice([0, 1]), r.choice([(1, 1), (1, 0), (0, 1)])
            sc.append(scen([kid([nap(1000)] * r.randrange(2) + list(q), 0, o, e, code=r.choice([0, 4]))], [(START, i), (r.choice([WAIT, WAIT, LOOP]), i), (FIN, i)], tick=3))
    # a process that the child has started goes on using the streams after the child has exited
    for q in itertools.product([w(1, 5), w(2, 4097), w(1, 70000), w(2, 70000), cl(1), cl(2), nap(2000), LEAVE], repeat=4):
        if q.count(LEAVE) != 1 or q[-1] == nap(2000): continue
        if any(a[0] == 2 and any(b[0] < 3 and b[1] == a[1] for b in q[i + 1:]) for i, a in enumerate(q)): continue
        if r.random() > (.2 if ctx.quick else 1): continue
        nk = r.choice([1, 1, 2])
        ids = list(range(1, nk + 1))
        o, e = r.choice([(1, 1), (1, 1), (1, 0), (0, 1)]) if nk == 1 else (1, 1)
        sc.append(scen([kid(q, r.choice([0, 0, 1]), o, e, code=r.choice([0, 6]), hc=r.choice([1, 1, 0])) for _ in ids],
                       [(START, 0)] + r.choice([[(WAIT, 0)], [(LOOP, 0)], [(WAIT, i) for i in ids], [(SLEEP, 4000), (DRAIN, 0), (FIN, 0), (WAIT, 0)]]) + [(FIN, 0)], tick=r.choice([0, 0, 3])))
    # ... or it has closed them, and lives on: neither the streams' ends nor the child's are held up
    for m, n1, n2 in itertools.product([0, 1], [0, 5, 70000], [0, 7]):
        pre = [x for x in ([w(1, n1)] if n1 else []) + ([w(2, n2)] if n2 else [])]
        for q in (pre + [LEAVE, cl(1), cl(2), wt(9)], [LEAVE] + pre + [cl(2), cl(1), wt(9)], pre + [cl(2), cl(1), LEAVE, wt(9)]):
            sc.append(scen([kid(q, m, code=3)], [(START, 0), r.choice([(WAIT, 0), (WAIT, 1), (LOOP, 0)]), (FIN, 0), (GO, 9)]))
    for m in (0, 1):
        sc.append(scen([kid([w(1, 10), cl(1), wt(9), w(2, 5)], m)], [(START, 0), (SLEEP, 20000), (DRAIN, 0), (DRAIN, 0), (GO, 9), (WAIT, 0)]))
    # a consumer that fails: everything is terminated
    for fo, fe, eo, ee in ((0, -1, 0, 0), (1, -1, 0, 0), (-1, 5000, 0, 0), (-1, -1, -1, 0), (-1, -1, 0, -1), (70000, -1, 0, 0)):
        for how in ([(WAIT, 0)], [(WAIT, 1)], [(DRAIN, 0)], [(DRAIN, 1)]):
            s = [w(1, 75000), w(2, 6000)] if eo == ee == 0 else [w(1, 10), w(2, 10), cl(1), cl(2)]
            if how[0][0] == DRAIN:
                s = [w(1, 10), w(2, 6000), sig(0), wt(9)] if eo == ee == 0 else s
                if fo > 10 or eo or ee: continue
                how = [(AWAIT, 0)] + how
            sc.append(scen([kid(s, fo=fo, fe=fe, eo=eo, ee=ee)] + ([kid([wt(20)])] if how[-1][1] == 0 else []), [(START, 0)] + how))
    # a read that fails: the error is reported and everything is terminated
    for nth, how, m in itertools.product([1, 2, 3, 4, 5, 7], [(WAIT, 0), (WAIT, 1), (DRAIN, 0), (DRAIN, 1)], [0, 1]):
        if how[0] == DRAIN and nth > 3 + 3 * (how[1] == 0): continue    # (a drain makes at least as many reads)
        ks = [kid([w(1, 5000), w(2, 6000), sig(0), wt(9)], m)] + ([kid([w(2, 10), wt(20)])] if how[1] == 0 else [])
        sc.append(scen(ks, [(START, 0), (AWAIT, 0), (RFAIL, nth), how, (FIN, 0)]))
    sc = [x for x in sc if x]
    r.shuffle(sc)
    vf.scenario_check(ctx, "Subproc", exe, sc, CONSTS, "subprocess output")
    ctx.assumptions += ["children are not given another process's output pipe by third parties", "the log's order is that of an atomic counter taken before each effect"]
