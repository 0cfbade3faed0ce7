"""C38: byte-order conversions are exact for every expression."""
import vf

ORD = ["big", "little"]
def value(r, n):
    y = r.random()
    if y < .2: return [r.choice([0, 255, 128, 127, 1]) for _ in range(n)]
    if y < .4: j = r.randrange(8 * n); return [128 >> j % 8 if i == j // 8 else 0 for i in range(n)]
    return [r.randrange(256) for _ in range(n)]
def form(r): return [r.randrange(2), r.randrange(13)]
def gen(r, k):
    ops = []
    while len(ops) < k:
        n = r.choice([2, 4, 8])
        ops.append(("load", [value(r, n)]))
        for _ in range(r.randrange(1, 6)):
            op = r.choice(["swap", "from", "image", "to", "back"])
            if op == "swap": ops.append((op, form(r)))
            elif op == "from": n = r.choice([2, 4, 8]); ops.append((op, [r.choice(ORD), value(r, n)] + form(r)))
            else: ops.append((op, [r.choice(ORD)] + form(r)))
    return ops
def systematic():
    out = [[("names", [])]]
    for n in (2, 4, 8):
        for f in range(13):
            for place in (0, 1):
                # every single bit, alone and missing, and a value whose bytes all differ
                vs = [[(128 >> j % 8 if i == j // 8 else 0) ^ inv for i in range(n)] for j in range(8 * n) for inv in (0, 255)] + [[16 * i + 9 * i + 1 for i in range(n)], [254 - 31 * i for i in range(n)]]
                if place and f > 1: continue
                ops = []
                for i, x in enumerate(vs):
                    ops.append(("load", [x]))
                    for o in ([("swap", [])], [("image", ["big"]), ("image", ["little"])], [("to", [ORD[i % 2]]), ("back", [ORD[i % 2]])], [("from", ["big", x]), ("from", ["little", x])])[i % 4 if len(vs) - i > 2 else 0:]:
                        ops += [(a, b + [place, f]) for a, b in o]
                out.append(ops)
    return out

def run(ctx):
    r = ctx.rng
    for host in ORD:
        ctx.model_check("ByteOrder", "SPECIFICATION Spec\nVIEW View\nINVARIANTS Laws\n", {"Host": '"%s"' % host, "MCBytes": "{0, 1, 128, 255}" if ctx.quick else "{0, 1, 2, 64, 127, 128, 254, 255}"})
    exe = ctx.driver("drv_bo.c", cflags=["-fsanitize=undefined"])
    seqs = systematic() + [gen(r, 200) for _ in range(30 if ctx.quick else 3000)]
    r.shuffle(seqs)
    vf.trace_check(ctx, "ByteOrder", exe, seqs, {"Host": '"little"', "MCBytes": "{}"}, what="byte-order conversions", shards=8)
    ctx.assumptions += ["the host is little-endian; an argument's evaluation has no side effects (the macros evaluate it more than once)"]
