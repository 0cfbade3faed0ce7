"""C19: a stream producer delivers exactly the source's bytes, then one end-of-stream."""
import itertools
import vf

MC = ("SPECIFICATION Spec\nVIEW View\nINVARIANTS Order\nPROPERTIES Complete EofOnce Nothing AllWritten LentStay ClosedOnce NoneLeft\n")
C = {"MCKinds": "{0, 1, 2, 3, 4}", "MCLen": 3, "MCFlags": 0}
LD = ["-Wl,--wrap=" + f for f in ("read", "write", "open", "open64", "close")]

def scen(kind, script, failat=-1, dataans=-1, eofans=0, openintr=0, openerr=0, closeerr=0):
    return ("consume", [kind, openintr, openerr, failat, dataans, eofans, closeerr, script])

def run(ctx):
    ctx.model_check("Streams", MC, C)
    exe = ctx.driver("drv_stream.c", ldflags=LD)
    r = ctx.rng
    sc = []
    # every script of at most three read results, with every consumer failure, for every kind
    items = [1, 2, 4096, 5000, 0, -5]
    for kind in (0, 1, 2):
        for n in range(0, 4 if ctx.quick else 5):
            for scr in itertools.product(items, repeat=n):
                if -5 in scr[:-1]: continue
                tot = sum(x for x in scr if x > 0)
                fails = [-1] + ([0] if tot and n < 3 else []) + ([1, tot] if tot else [])
                for f in set(fails):
                    if not ctx.quick or r.random() < (1 if n < 3 else .35):
                        sc.append(scen(kind, list(scr), f, r.choice([-1, 7])))
                if -5 not in scr: sc.append(scen(kind, list(scr), -1, -1, r.choice([-1, 3])))
    for scr in ([], [10], [0, 10], [-5], [4096, -21]):
        for oi, oe, ce in ((0, 0, 0), (1, 0, 0), (3, 0, 0), (0, 2, 0), (2, 13, 0), (0, 0, 5), (1, 0, 28)):
            for f, e in ((-1, 0), (1, 0), (-1, -1)):
                sc.append(scen(2, scr, f, -1, e, oi, oe, ce if scr[-1:] != [-5] and scr[-1:] != [-21] and f < 0 and e == 0 else 0))
    for _ in range(120 if ctx.quick else 3000):
        n = r.choice([1, 5, 20, 60])
        scr = [r.choice([0, 0, 1, 2, 100, 1000, 4095, 4096, 4097, 8192, 20000, 65536, r.randrange(1, 9000)]) for _ in range(n)]
        if r.random() < .3: scr.append(-r.choice([5, 9, 11, 12, 21]))
        tot = sum(x for x in scr if x > 0)
        sc.append(scen(r.randrange(3), scr, r.choice([-1, -1, r.randrange(tot + 1), tot]), r.choice([-1, 1]), r.choice([0, 0, -1])))
    vf.scenario_check(ctx, "Streams", exe, sc, C, "stream producers")
    ctx.assumptions += ["errors of a source persist: a failing read keeps failing", "close(2) is never interrupted"]
