"""C08: a buffer holds exactly the bytes written, always NUL-terminated."""
import random
import vf

CFG = "SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT Emit\nPROPERTIES AppendOnly OneBuffer\n"

def rbytes(r, n, nul=True):
    return [r.choice([0, 10, 92, 255, 128]) if nul and r.random() < .2 else r.randrange(32, 127) for _ in range(n)]

def gen(r, length):
    ops = []
    for _ in range(length):
        i = r.choice([1, 1, 2]); n = r.choice([0, 1, 2, 3, 7, 8, 15, 16, 31, r.randrange(0, 70)])
        x = r.random()
        if x < .2: ops.append((r.choice(["set", "app", "app", "cons"]), [i, rbytes(r, n)]))
        elif x < .3: ops.append((r.choice(["sets", "apps"]), [i, rbytes(r, n, False)]))
        elif x < .35: ops.append((r.choice(["setl", "appl"]), [i, r.randrange(1, 5)]))
        elif x < .5:
            ops.append((r.choice(["pf", "apf", "avpf", "vpf"]), [i, r.randrange(1, 7), rbytes(r, n, False),
                        r.choice([0, 5, 9, 10, 99999, 123456, 64, r.randrange(0, 200)])]))
            if ops[-1][1][1] == 6: ops[-1][1][3] = r.randrange(0, 90)
            elif r.random() < .3: ops[-1][1][3] *= -1
        elif x < .7: ops.append((r.choice(["fit", "fita", "fita"]), [i, r.choice([-2, -1, 0, 1, 2, 40]), r.randrange(3)]))
        elif x < .78: ops.append((r.choice(["copy", "appc"]), [i]))
        elif x < .85: ops.append(("trunc", [i, r.choice([0, 1, n, 10, 1000])]))
        elif x < .88: ops.append(("ind", [i, r.randrange(0, 20)]))
        elif x < .92: ops.append(("ens", [i, r.choice([0, 1, 16, 100, 300])]))
        elif x < .95: ops.append(("clear", [i]))
        elif x < .98: ops.append(("eq", []) if r.random() < .7 else ("eqself", [i]))
        else: ops.append(("renew", [i]))
        if r.random() < .1: ops += [("copy", [1]), ("eq", [])]
        if r.random() < .05: ops += [("renew", [1]), ("renew", [2]), ("eq", [])]
        if r.random() < .08:      # keep the buffers from growing without bound
            ops.append(("trunc", [i, r.randrange(0, 120)]))
            ops.append(("trunc", [3 - i, r.randrange(0, 120)]))
    return ops

def run(ctx):
    exe = ctx.driver("drv_buffer.c")
    edges = ctx.graph("Buffers", CFG, {"MCBytes": "{<<>>, <<97>>, <<0>>, <<98, 0, 99>>}" if not ctx.quick else "{<<>>, <<97>>, <<0, 99>>}", "MCMax": 3, "MCEns": "{0, 1, 5}"})
    vf.replay_graph(ctx, exe, edges, "<<<<>>, <<>>>>", what="buffers")
    seqs = [gen(ctx.rng, 120) for _ in range(32 if ctx.quick else 400)]
    vf.trace_check(ctx, "Buffers", exe, seqs, {"MCBytes": "{}", "MCMax": 0, "MCEns": "{}"}, what="buffers")
