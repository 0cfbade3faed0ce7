"""C07: each bit of a bitset is independent storage."""
import random
import vf

CFG = "SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT Emit\nPROPERTY OneBit\n"

def run(ctx):
    exe = ctx.driver("drv_small.c")
    for n in (1, 2, 4, 7, 8, 9) if ctx.quick else range(1, 12):
        edges = ctx.graph("Bitset", CFG, {"N": n})
        init = "<<" + ", ".join(["0"] * n) + ">>"
        for how in ("new", "init") if n < 8 else ("new",):
            vf.replay_graph(ctx, exe, edges, init, args=["bits", str(n), how], what="bitset of %d bits" % n)
    for n in (1, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 71, 130, 257):
        r = random.Random("%d-%d" % (ctx.seed, n))
        seqs = []
        for _ in range(1 if ctx.quick else 12):
            s = [("set", [i, 1]) for i in range(n)] + [("set", [i, 0]) for i in range(n)]
            r.shuffle(s)
            s += [("set", [r.randrange(n), r.choice([0, 1, 2, -1, 128, 256, 65536])]) for _ in range(80)]
            s += [("clear", [])] + [("set", [r.randrange(n), 1]) for _ in range(10)]
            seqs.append(s)
        vf.trace_check(ctx, "Bitset", exe, seqs, {"N": n}, args=["bits", str(n), "new"], what="bitset of %d bits" % n, shards=1)
