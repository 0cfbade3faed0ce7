"""C03: a doubly-linked list behaves as a mutable sequence."""
import random
import vf

CFG = "SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT Emit\nINVARIANT Disjoint\nPROPERTY CatConserves\n"

def gen(r, nl, ne, length):
    L = [[] for _ in range(nl + 1)]
    ops = []
    for _ in range(length):
        inl = [e for l in L for e in l]
        out = [e for e in range(1, ne + 1) if e not in inl]
        x = r.random()
        if x < .5 and out:
            e = r.choice(out); l = r.randrange(1, nl + 1)
            if x < .25 or not inl:
                op = r.choice(["addh", "addt", "add"]); ops.append((op, [l, e]))
                L[l].insert(0 if op == "addh" else len(L[l]), e)
            else:
                p = r.choice(inl); l = [i for i in range(nl + 1) if p in L[i]][0]
                op = r.choice(["aft", "bef"]); ops.append((op, [p, e]))
                L[l].insert(L[l].index(p) + (op == "aft"), e)
        elif x < .7 and inl:
            e = r.choice(inl); ops.append(("rem", [e]))
            for l in L:
                if e in l: l.remove(e)
        elif x < .85:
            d, s = r.sample(range(1, nl + 1), 2); op = r.choice(["cath", "catt"]); ops.append((op, [d, s]))
            L[d] = L[s] + L[d] if op == "cath" else L[d] + L[s]; L[s] = []
        else:
            l = r.randrange(1, nl + 1); op = r.choice(["visit", "map", "fe", "fev"])
            rm = sorted(r.sample(L[l], r.randrange(0, len(L[l]) + 1))) if r.random() < .6 else []
            stop = r.choice(L[l] + [0]) if op == "visit" else 0
            ops.append((op, [l, rm, stop]))
            n = L[l].index(stop) + 1 if stop in L[l] else len(L[l])
            L[l] = [e for i, e in enumerate(L[l]) if i >= n or e not in rm]
    return ops

def run(ctx):
    exe = ctx.driver("drv_dllist.c")
    vis = "{<<x, s>> : x \\in {<<>>, <<1>>, <<2>>, <<1,3>>, <<1,2,3>>}, s \\in 0..3}"
    for nl, ne in ((2, 3),) if ctx.quick else ((2, 3), (3, 3), (2, 4)):
        v = vis if ne == 3 and nl == 2 else "{<<<<>>, 0>>, <<<<1,2>>, 3>>, <<<<2>>, 2>>}"
        edges = ctx.graph("DLList", CFG, {"NL": nl, "NE": ne, "MCVisits": v})
        vf.replay_graph(ctx, exe, edges, "<<" + ", ".join(["<<>>"] * nl) + ">>", args=[str(nl), str(ne)], what="doubly-linked lists")
    seqs = [gen(ctx.rng, 3, 12, 150) for _ in range(8 if ctx.quick else 80)]
    vf.trace_check(ctx, "DLList", exe, seqs, {"NL": 3, "NE": 12, "MCVisits": "{}"}, args=["3", "12"], what="doubly-linked lists")
