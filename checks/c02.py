"""C02: a hash table finalizes everything it owns exactly once."""
import random
import vf

CFG = "SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT Emit\nINVARIANT Linear\nPROPERTY FreedLeaves\n"

def consts(nko, nv, fk, fv, ud, dels="{}"):
    b = lambda x: "TRUE" if x else "FALSE"
    return {"NKO": nko, "NV": nv, "FK": b(fk), "FV": b(fv), "UD": b(ud), "MCDels": dels}

def gen(r, nko, nv, length):
    """Random histories that respect single ownership of each object."""
    table, ops = [], []           # list of [ko, v] in order
    key = lambda o: (o - 1) // 2
    for _ in range(length):
        x = r.random()
        if x < .62:
            free_k = [o for o in range(1, nko + 1) if o not in [e[0] for e in table]]
            free_v = [v for v in range(1, nv + 1) if v not in [e[1] for e in table]]
            o = r.choice(free_k); v = r.choice(free_v + [0]) if r.random() < .95 else 0
            op = r.choice(["put", "put", "goc"])
            ops.append((op, [o, v]))
            old = [e for e in table if key(e[0]) == key(o)]
            if not old: table.append([o, v])
            elif op == "put": old[0][:] = [o, v]
        elif x < .9:
            o = r.randrange(1, nko + 1)
            ops.append((r.choice(["del", "dele"]), [o]))
            table = [e for e in table if key(e[0]) != key(o)]
        elif x < .95:
            d = r.sample(range(nko // 2), r.randrange(0, min(8, nko // 2))); ab = r.choice([-1, -1, r.randrange(nko // 2)])
            ops.append(("map", [d, ab]))
            keys = [key(e[0]) for e in table]
            last = keys.index(ab) if ab in keys else len(keys)
            table = [e for i, e in enumerate(table) if i >= last or keys[i] not in d]
        elif x < .97: ops.append(("ensure", [r.choice([10, 100, 300])]))
        elif x < .985: ops.append(("clear", [])); table = []
        else: ops.append(("destroy", [])); table = []
    ops.append(("destroy", []))
    return ops

def run(ctx):
    exe = ctx.driver("drv_hashown.c")
    combos = [(1, 1, 1), (1, 0, 0), (0, 1, 1), (0, 0, 0)] if ctx.quick else [(a, b, c) for a in (0, 1) for b in (0, 1) for c in (0, 1)]
    for fk, fv, ud in combos:
        edges = ctx.graph("HashOwn", CFG, consts(4, 2, fk, fv, ud, "{<<>>, <<0>>, <<1>>, <<0,1>>}"))
        for hm in ((0, 1) if fk else (0,)):
            vf.replay_graph(ctx, exe, edges, "<<<<>>, <<>>>>", args=[str(x) for x in (fk, fv, ud, 4, 2, hm)],
                            what="hash-table ownership (free_key=%d free_value=%d user_data=%d)" % (fk, fv, ud))
    n = 2 if ctx.quick else 20
    for hm, (fk, fv, ud) in enumerate([(1, 1, 1), (1, 1, 0), (1, 1, 1)]):
        r = random.Random("%d-%d" % (ctx.seed, hm))
        seqs = [gen(r, 140, 90, 250) for _ in range(n)] + [gen(r, 12, 8, 150) for _ in range(n)]
        seqs2 = [[(o, a) for o, a in s] for s in seqs]
        vf.trace_check(ctx, "HashOwn", exe, seqs2, consts(140, 90, fk, fv, ud), args=[str(x) for x in (fk, fv, ud, 140, 90, hm)],
                       what="hash-table ownership")
