"""C09: pretty-printed renderings are exact, reversible and correctly indented."""
import random
import vf

OPS = ["cstr", "hex", "multi", "bin"]

def cases(r, quick):
    cs = []
    for b in range(256):                                     # every byte value, alone and in the middle
        for op in OPS: cs.append((op, [r.randrange(3), [], [b]]))
        cs.append((r.choice(OPS), [2, [120], [65, b, 66]]))
    alpha = [0, 7, 8, 9, 10, 11, 12, 13, 27, 31, 32, 34, 39, 48, 65, 92, 97, 126, 127, 128, 255]
    for x in alpha:
        for y in alpha: cs.append((r.choice(OPS), [r.randrange(0, 5), [], [x, y]])); cs.append(("cstr", [0, [], [x, y, 49]]))
    for n in list(range(0, 52)) + [63, 64, 65, 95, 96, 97, 127, 128, 129, 200]:
        for ind in (0, 1, 4, 20):
            s = [r.randrange(256) for _ in range(n)]
            cs.append(("hex", [ind, [], s])); cs.append(("bin", [ind, [65, 0], s]))
            t = [r.choice([10, 32, 65, 90]) for _ in range(n)]
            cs.append(("multi", [ind, [10], t])); cs.append(("bin", [ind, [], t]))
            cs.append(("bin", [ind, [], [r.choice([9, 32, 66, 126, 13]) for _ in range(n)]]))
            u = [65] * n
            if n:
                u[r.randrange(n)] = r.choice([0, 127, 128, 7, 255]); u[r.randrange(n)] = 10
            cs.append(("bin", [ind, [], u])); cs.append(("cstr", [0, [48], s]))
    for n in range(0, 40): cs.append(("ind", [n, [65] * (n % 3), []]))
    for _ in range(0 if quick else 20000):
        n = r.choice([r.randrange(0, 8), r.randrange(0, 40), r.randrange(0, 200)])
        cs.append((r.choice(OPS), [r.randrange(0, 30), [1] * r.randrange(3), [r.choice([r.randrange(256), r.choice(alpha)]) for _ in range(n)]]))
    return cs

def run(ctx):
    exe = ctx.driver("drv_pretty.c")
    alpha = "{0, 10, 34, 65, 92, 120, 255}"
    ctx.model_check("Pretty", "SPECIFICATION Spec\nINVARIANTS Decodes HexReversible MultiReversible\n",
                    {"MCAlpha": alpha, "MCLen": 4 if ctx.quick else 5, "MCInd": "{0, 3}"})
    ctx.model_check("Pretty", "SPECIFICATION Spec\nINVARIANTS Decodes HexReversible MultiReversible\n",
                    {"MCAlpha": "{32, 200}" if ctx.quick else "{10, 32, 200}", "MCLen": 8, "MCInd": "{2}"})
    ctx.model_check("Pretty", "SPECIFICATION Spec\nINVARIANTS Decodes HexReversible MultiReversible\n",
                    {"MCAlpha": "{10}", "MCLen": 40, "MCInd": "{0, 2}"})
    cs = cases(ctx.rng, ctx.quick)
    ctx.rng.shuffle(cs)
    ctx.cov["inputs"] = len(cs)
    seqs = [cs[i::64] for i in range(64)]
    vf.trace_check(ctx, "Pretty", exe, seqs, {"MCAlpha": "{}", "MCLen": 0, "MCInd": "{}"}, what="pretty printers")
