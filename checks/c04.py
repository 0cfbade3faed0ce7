"""C04: growable arrays keep exactly the elements appended, in order."""
import random
import vf

CFG = "SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT Emit\nPROPERTIES EnsureInert Independent CopyLen\n"

def gen(r, vmax, length, big):
    n = [0, 0]; ops = []
    for _ in range(length):
        i = r.randrange(2); x = r.random()
        if x < (.75 if big else .5) or n[i] == 0 and x < .85:
            ops.append((r.choice(["app", "apg"]), [i + 1, r.randrange(vmax)])); n[i] += 1
        elif x < .85:
            if r.random() < .5: p, c, op = r.randrange(n[i]), 1, "rm"
            else:
                p = r.randrange(n[i] + 1); c = r.randrange(0, min(n[i] - p, 6) + 1) if r.random() < .8 else n[i] - p; op = "rmr"
            ops.append((op, [i + 1, p] + ([c] if op == "rmr" else []))); n[i] -= c
        elif x < .88 and n[i]: ops.append(("set", [i + 1, r.randrange(n[i]), r.randrange(vmax)]))
        elif x < .93: ops.append(("ens", [i + 1, r.choice([0, 1, 2, 5, n[i], n[i] + 1, 2 * n[i], 2 * n[i] + 1, 100])]))
        elif x < .98:
            f = r.choice([-1, -2, -1, r.randrange(0, 10)]); ops.append(("copy", [i + 1, f]))
            n[1 - i] = 0 if 0 <= f < n[i] else n[i]
        elif x < .99: ops.append(("clear", [i + 1])); n[i] = 0
        else: ops.append(("renew", [i + 1])); n[i] = 0
    return ops

KINDS = [["raw", "1"], ["raw", "8"], ["raw", "3"], ["raw", "40"], ["ptr"], ["str"], ["typed"]]

def run(ctx):
    exe = ctx.driver("drv_array.c")
    mx = 3 if ctx.quick else 4
    edges = ctx.graph("Arrays", CFG, {"MCVals": "{5, 6}" if ctx.quick else "{5}", "MCMax": mx, "MCEns": "{1, 4, 9}"})
    kinds = KINDS
    for k in kinds:
        vf.replay_graph(ctx, exe, edges, "<<<<>>, <<>>>>", args=k, what="arrays of kind " + " ".join(k))
    edges = ctx.graph("Arrays", CFG, {"MCVals": "{7}", "MCMax": 5 if ctx.quick else 7, "MCEns": "{3, 6}"})
    for k in kinds[2:]:
        vf.replay_graph(ctx, exe, edges, "<<<<>>, <<>>>>", args=k, what="arrays of kind " + " ".join(k))
    for k in kinds:
        vmax = 250 if k == ["raw", "1"] else 60000
        r = random.Random("%d-%s" % (ctx.seed, k))
        m = 3 if ctx.quick else 30
        seqs = [gen(r, vmax, 150, False) for _ in range(m)] + [gen(r, vmax, 300, True) for _ in range(m // 2)]
        # many elements, and room for many more
        for big in (3000, 9000) if ctx.quick else (3000, 9000, 20000, 40000):
            seqs.append([("fill", [1, big, r.randrange(250)]), ("fill", [2, r.randrange(1, big), r.randrange(250)]), ("ens", [2, r.choice([big // 2, 3 * big, 20 * big])]), ("copy", [1, -2]), ("rmr", [2, r.randrange(big // 2), r.randrange(big // 2)]),
                         ("fill", [2, big, 3]), ("ens", [1, 7 * big]), ("copy", [2, -1]), ("app", [1, 77]), ("rmr", [1, 0, big // 2]), ("clear", [2]), ("fill", [2, 700, 1]), ("renew", [1]), ("fill", [1, 100, 9]), ("ens", [1, big + 1]), ("copy", [2, -1])])
        vf.trace_check(ctx, "Arrays", exe, seqs, {"MCVals": "{}", "MCMax": 0, "MCEns": "{}"}, args=k, what="arrays of kind " + " ".join(k))
