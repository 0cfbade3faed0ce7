"""C20: a file-writing stream consumer writes every byte it is given, once, in order."""
import itertools
import vf
from c19 import MC, C, LD

def scen(kind, script, chunks, doeof=2, openintr=0, openerr=0, closeerr=0):
    return ("consumer", [kind, openintr, openerr, doeof, closeerr, script, chunks])

def run(ctx):
    ctx.model_check("Streams", MC, C)
    exe = ctx.driver("drv_stream.c", ldflags=LD)
    r = ctx.rng
    sc = []
    items = [1, 3, 4, 0, -28]
    for kind in (0, 2):
        for n in range(0, 4 if ctx.quick else 6):
            for scr in itertools.product(items, repeat=n):
                if -28 in scr[:-1]: continue
                for ch in ([4], [4, 5], [1, 0, 9], [8, 8, 8]):
                    if not ctx.quick or r.random() < (1 if n < 3 else .6):
                        sc.append(scen(kind, list(scr), ch, r.randrange(3)))
    for kind in (1, 3, 4):
        for ch in ([], [0], [1], [4, 5], [1, 0, 9], [4096, 1], [5000] * 4, [1] * 40, [100000, 1, 70000]):
            for e in (0, 1, 2):
                sc.append(scen(kind, [], ch, e))
                if kind == 1:
                    for scr in ([-28], [4, -5], [10 ** 6, -4], [-4]): sc.append(scen(kind, scr if scr[0] != 4 or ch == [4, 5] else [-32], ch, e))
    # a FILE that takes some of a chunk and then fails
    for ch in ([1], [2], [4, 5], [9], [1, 0, 9], [4096, 1], [5000, 5000], [100000, 1]):
        for scr in ([1, -5], [2, -28], [3, 1, -32], [1, 1, 1, -5], [4095, -5], [4096, 1, -28], [4999, -4], [7000, -5]):
            for kind in (1, 4): sc.append(scen(kind, scr, ch, r.randrange(3)))
    for ch in ([], [5], [5, 6]):
        for scr in ([], [0], [2, 0], [-5]):
            for oi, oe, ce in ((0, 0, 0), (1, 0, 0), (0, 2, 0), (2, 13, 0), (0, 0, 5), (0, 0, 28)):
                for e in (0, 1, 2): sc += [scen(2, scr, ch, e, oi, oe, ce), scen(5, scr, ch, e, oi, oe, ce)]
    for _ in range(150 if ctx.quick else 3000):
        ch = [r.choice([0, 1, 2, 511, 512, 4096, 8192, 65536, r.randrange(9000), 40000]) for _ in range(r.choice([1, 3, 10, 25]))]
        scr = [r.choice([0, 0, 1, 2, 100, 4095, 4096, 4097, 30000, r.randrange(1, 9000)]) for _ in range(r.choice([0, 1, 5, 20, 60]))]
        kind = r.choice([0, 0, 2, 3, 4])
        if kind in (0, 2) and r.random() < .3: scr.append(-r.choice([5, 9, 11, 28, 32]))
        sc.append(scen(kind, scr if kind in (0, 2) else [], ch, r.randrange(3)))
    vf.scenario_check(ctx, "Streams", exe, sc, C, "stream consumers")
    ctx.assumptions += ["errors of a sink persist", "close(2) is never interrupted", "write(2) does not return 0 for a non-empty chunk"]
