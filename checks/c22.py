"""C22: a child's start, stdin, exit code, finish and abort are reported faithfully."""
import vf
from sublib import *

def run(ctx):
    model(ctx)
    exe = ctx.driver("drv_sub.c", ldflags=LD)
    r = ctx.rng
    sc = []
    # every exit code, of bodies and of programs
    codes = list(range(256)); r.shuffle(codes)
    for m in (0, 1):
        for i in range(0, 256, 6):
            if m == 1 and ctx.quick and i % 24: continue
            sc.append(scen([kid([], m, r.choice([0, 1]), 1, 1, c) for c in codes[i:i + 6]], [(START, 0), (r.choice([WAIT, LOOP]), 0), (FIN, 0), (ABORT, 0), (WAIT, 0), (FIN, 0)]))
    for c in (-1, -7, 256, 512, 1000):
        sc.append(scen([kid([], 0, 0, 0, 1, c, want=-1)], [(START, 0), (WAIT, 0)]))
    sc.append(scen([kid([], 0, hc=0, code=3), kid([], 0, hc=1, code=4)], [(START, 0), (WAIT, 0), (FIN, 1), (FIN, 2)]))
    # a program that cannot be executed
    for m in (2, 3):
        sc.append(scen([kid([], m, 0, 0, 1, 0)], [(START, 0), (WAIT, 0), (FIN, 0)]))
        sc.append(scen([kid([], m, 1, 0, 1, 0)], [(START, 1), (LOOP, 1), (FIN, 1)], 0))
    # finished only after the exit and the delivery
    for m in (0, 1):
        sc.append(scen([kid([sig(0), wt(1), w(1, 10), cl(1), cl(2), sig(2), wt(3)], m, code=9)],
                       [(START, 0), (FIN, 0), (AWAIT, 0), (FIN, 0), (DRAIN, 0), (FIN, 0), (GO, 1), (AWAIT, 2), (DRAIN, 0), (FIN, 0), (DRAIN, 0), (FIN, 0), (GO, 3), (WAIT, 0), (FIN, 0)]))
        for o, e in ((0, 0), (1, 0), (0, 1), (1, 1)):
            for g in (0, 1):
                sc.append(scen([kid([wt(0), w(2, 30), w(1, 40), sig(1)], m, o, e, code=200)],
                           [(START, 1), (FIN, 1), (DRAIN, 1), (FIN, 1), (GO, 0), (AWAIT, 1), (FIN, 1), (SLEEP, 3000), (FIN, 1), (DRAIN, 1), (FIN, 1), (LOOP, 1), (FIN, 1), (WAIT, 1)], g))
    # stdin: chunks of every size, read in every size, with and without signals; then its end
    for _ in range(40 if ctx.quick else 1500):
        chunks = [r.choice([1, 2, 10, 4096, 5000, 65536, 65537, 100000] + [r.randrange(1, 3000)] * 6) for _ in range(r.randrange(0, 7))]
        while sum(chunks) > 290000: chunks.pop()
        s, tot = [], sum(chunks)
        while tot > 0 and r.random() < .6:
            n = r.randrange(1, max(2, min(tot, 60000)))
            s.append(rd(n)); tot -= n
            if r.random() < .3: s.append(nap(r.randrange(4000)))
        s.append(RDALL)
        if r.random() < .5: s += [w(1, r.randrange(1, 9000)), RDALL]
        m = 1 if r.random() < .3 else 0
        ops = [(START, r.choice([0, 1]))]
        for c in chunks:
            ops.append((SEND, 1, c))
            if r.random() < .3: ops.append((DRAIN, 1))
        ops += [(END, 1), (WAIT, 0)]
        sc.append(scen([kid(s, m, code=r.choice([0, 3]))], ops, 1, tick=1 if r.random() < .6 else 0))
    # a slow reader, a full pipe, and signals in the middle of the transfer
    for n in (70000, 150000, 290000):
        sc.append(scen([kid([nap(20000)] + [x for _ in range(20) for x in (rd(5000), nap(4000))] + [RDALL])], [(START, 0), (SEND, 1, n), (END, 1), (WAIT, 0)], 1, tick=1))
    # the end of one child's stdin does not depend on the others
    for n in (2, 3, 5):
        for order in (range(1, n + 1), range(n, 0, -1)):
            ops = [(START, 0)] + [(SEND, i, 10 + i) for i in order]
            for i in order: ops += [(END, i), (WAIT, i), (FIN, i)]
            sc.append(scen([kid([RDALL, w(1, 5)], 1, code=i) for i in range(n)], ops))
        sc.append(scen([kid([RDALL, w(1, 5)], 0, code=7)] + [kid([RDALL], 1) for _ in range(n - 1)],
                       [(START, 0)] + [x for i in range(1, n + 1) for x in [(END, i), (WAIT, i), (FIN, i)]]))
    # abort: children in every phase, once or twice, alone or in a group
    ph = [[], [wt(9)], [RDALL], [w(1, 200000)], [w(2, 70000), wt(9)], [w(1, 10), cl(1), cl(2), wt(9)], [sig(0), wt(9)]]
    for _ in range(50 if ctx.quick else 1500):
        nk = r.randrange(1, 5)
        kids = [kid(r.choice(ph), 1 if r.random() < .25 else 0, r.choice([0, 1]), r.choice([0, 1]), r.choice([0, 1]), r.choice([0, 9])) for _ in range(nk)]
        for k in kids:
            if not k[1] and not k[4] and nk > 1: k[1] = 1
        g = r.random() < .8
        ops = [(START, 0)] if g else [(START, i + 1) for i in range(nk)]
        if r.random() < .5: ops.append((SLEEP, r.choice([0, 500, 3000])))
        if r.random() < .4: ops.append((DRAIN, r.randrange(0 if g else 1, nk + 1)))
        ids = list(range(1, nk + 1)); r.shuffle(ids)
        if g and r.random() < .6: ops += [(ABORT, 0)] * r.choice([1, 2])
        else: ops += [(ABORT, i) for i in ids for _ in range(r.choice([1, 2]))]
        if g and r.random() < .7: ops += [(WAIT, 0), (FIN, 0), (ABORT, 0), (DRAIN, 0)]
        else: ops += [(WAIT, i) for i in ids] + [(FIN, i) for i in ids]
        sc.append(scen(kids, ops, g, tick=1 if r.random() < .4 else 0))
    for m in (0, 1):
        for o in (0, 1): sc.append(scen([kid([sig(0), wt(9)], m, o, o), kid([RDALL], m)], [(START, 0), (AWAIT, 0), (ABORT, r.choice([0, 1])), (ABORT, 0), (WAIT, 0)], 1, tick=2))
        sc.append(scen([kid([nap(2000)], m)], [(START, 0), (WAIT, 0)], 1, tick=2))
        # writing to a child that has exited is refused
        for n in (1, 70000): sc.append(scen([kid([], m), kid([RDALL], m)], [(START, 0), (SEND, 2, 7), (WAIT, 1), (SEND, 1, n), (END, 2), (WAIT, 0)], 1))
    # a child that has closed its stdin cannot be written to, however it was started
        for n in (1, 70000): sc.append(scen([kid([cl(0), sig(0), wt(1)], m), kid([RDALL], 1)], [(START, 0), (AWAIT, 0), (SEND, 1, n), (SEND, 2, 5), (SEND, 1, 3), (END, 1), (END, 2), (GO, 1), (WAIT, 0), (FIN, 0)]))
        for n in (1, 5000, 70000): sc.append(scen([kid([rd(n), cl(0), sig(0), wt(1)], m)], [(START, 0), (SEND, 1, n), (AWAIT, 0), (SEND, 1, r.randrange(1, 5000)), (GO, 1), (WAIT, 1)], r.choice([0, 1]) or 1))
    # some members have finished before the abort
    for _ in range(10 if ctx.quick else 200):
        sc.append(scen([kid([], 0, code=5), kid([wt(9)]), kid([w(1, 100)], 0, code=6), kid([RDALL])], [(START, 0), (WAIT, 3), (FIN, 3)] + ([(LOOP, 1)] if r.random() < .5 else []) + [(ABORT, 0), (FIN, 3), (WAIT, 0), (FIN, 0), (ABORT, 0)]))
    # the system refuses a pipe or a fork: those already started are terminated
    for nk in (1, 2, 3):
        for o, e in ((1, 1), (1, 0), (0, 0)):
            np = 1 + o + e
            for f in range(1, nk + 1):
                for g in ([1] if nk > 1 else [0, 1]):
                    ks = [kid([wt(9)] if o or e or nk == 1 else [nap(10)], 0, o, e) for _ in range(nk)]
                    for after in ([], [(WAIT, 0 if g else 1), (FIN, 0 if g else 1)]):
                        st = (START, 0 if g else 1)
                        sc.append(scen(ks, [st] + after, g, ff=f))
                        sc.append(scen(ks, [st] + after, g, fp=(f - 1) * np + r.randrange(1, np + 1)))
    # mixtures
    for _ in range(30 if ctx.quick else 1500):
        nk = r.randrange(1, 5)
        kids, ops = [], [(START, 0)]
        for i in range(1, nk + 1):
            n = r.choice([0, 1, 100, 5000, 70000])
            s = [RDALL, w(1, n)] if n and r.random() < .5 else [rd(n), w(2, n), RDALL] if n else [w(1, 3), RDALL]
            kids.append(kid(s, 1 if r.random() < .3 else 0, code=r.randrange(256), hc=r.choice([0, 1, 1])))
            if n: ops.append((SEND, i, n))
            if r.random() < .3: ops.append((DRAIN, r.randrange(0, nk + 1)))
        ids = list(range(1, nk + 1)); r.shuffle(ids)
        ops += [(END, i) for i in ids] + [(DRAIN, 0), (FIN, ids[0])] + ([(WAIT, ids[-1]), (FIN, ids[-1])] if all(k[0] for k in kids[ids[-1]:]) else []) + [(WAIT, 0), (FIN, 0)]
        sc.append(scen(kids, ops, 1, tick=1 if r.random() < .3 else 0))
    # known finding: a child that runs a function keeps the others' stdin open
    known = scen([kid([RDALL], 0), kid([RDALL], 0)], [(START, 0), (END, 1), (WAIT, 1), (END, 2), (WAIT, 2)])
    r.shuffle(sc)
    vf.scenario_check(ctx, "Subproc", exe, [known] + sc, CONSTS, "subprocess lifecycle",
                      key_of=lambda x, e: "function-sibling-holds-stdin" if e["op"] == "hang" and x[1] == known[1] else None)
    ctx.assumptions += ["children do not ignore SIGTERM", "the parent ignores SIGPIPE if it writes to children that may have exited",
                        "exit codes of aborted children are unspecified"]
