"""C36: 128-bit unsigned arithmetic, comparison, access and printing are exact."""
import vf

FB = ["-DCORK_CONFIG_HAVE_GCC_INT128=0", "-DCORK_CONFIG_HAVE_GCC_MODE_ATTRIBUTE=0"]
M = 2 ** 128
def be(v, n=16): return list((v % 256 ** n).to_bytes(n, "big"))
def tla(vals): return "{%s}" % ",".join("<<%s>>" % ",".join(map(str, be(v))) for v in vals)
def consts(vals=(), shifts=()): return {"MCVals": tla(vals), "MCShifts": "{%s}" % ",".join(map(str, shifts))}
W64 = [0, 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64 - 2, 2 ** 63 - 1, 2 ** 32, 2 ** 32 - 1]
W32 = [0, 1, 2 ** 32 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 31 - 1]
EDGE = [h << 64 | l for h in W64[:5] for l in W64[:5]]
def word(r, bits):
    y = r.random()
    if y < .3: return r.choice([0, 1, 2 ** bits - 1, 2 ** (bits - 1), 2 ** bits - 2, 2 ** (bits - 1) - 1])
    if y < .5: return 1 << r.randrange(bits)
    if y < .65: return (1 << r.randrange(bits + 1)) - 1
    return r.getrandbits(bits)
def value(r):
    y = r.random()
    if y < .35: return word(r, 64) << 64 | word(r, 64)
    if y < .55: return sum(word(r, 32) << 32 * i for i in range(4))
    if y < .65: return (10 ** r.randrange(39) + r.choice([-1, 0, 0, 1])) % M
    if y < .7: return r.randrange(10) * 10 ** r.randrange(38) % M
    if y < .78: return 1 << r.randrange(128)
    if y < .84: return M - (1 << r.randrange(128))
    if y < .9: return 16 ** r.randrange(32) * r.randrange(1, 16)
    return r.getrandbits(r.randrange(1, 129))
def related(r, v):
    """an operand near a boundary of the register"""
    y = r.random()
    if y < .15: return v
    if y < .3: return (v + r.choice([-1, 1, 2 ** 64, -2 ** 64, 2 ** 63, 2 ** 32])) % M
    if y < .4: return (M - v + r.choice([-1, 0, 1])) % M
    if y < .5: return v ^ 1 << r.randrange(128)
    if y < .6: return (v >> 64 << 64) | word(r, 64)            # same high half
    if y < .7: return word(r, 64) << 64 | v % 2 ** 64           # same low half
    if y < .8: return (word(r, 64) << 64) + (2 ** 64 - v % 2 ** 64 + r.choice([-1, 0, 1])) % 2 ** 64   # carry out of the low half, just
    return value(r)
class Seq:
    def __init__(s): s.v = 0; s.ops = []
    def do(s, op, *a):
        s.ops.append((op, list(a)))
        f = lambda b: int.from_bytes(bytes(b), "big")
        if op in ("load", "loadp"): s.v = f(a[1])
        elif op == "zero": s.v = 0
        elif op == "add": s.v = (s.v + f(a[0])) % M
        elif op == "sub": s.v = (s.v - f(a[0])) % M
        elif op == "rsub": s.v = (f(a[0]) - s.v) % M
        elif op == "shl": s.v = (s.v << a[0]) % M
        elif op == "shr": s.v >>= a[0]
        elif op == "swap": s.v = int.from_bytes(s.v.to_bytes(16, "little"), "big")
    def look(s, r, k):
        for _ in range(k):
            y = r.random()
            if y < .5: s.do("cmp", be(related(r, s.v)))
            elif y < .8: s.do(r.choice(["dec", "dec", "hex", "hex", "pad"]))
            else:
                w = r.choice([1, 2, 4, 8]); s.do("get", w, r.randrange(16 // w))
def gen(r, n):
    s = Seq()
    while len(s.ops) < n:
        s.do("load" if r.random() < .5 else "loadp", r.randrange(8), be(value(r)))
        for _ in range(r.randrange(1, 5)):
            y = r.random()
            if y < .5: s.do(r.choice(["add", "add", "sub", "sub", "rsub"]), be(related(r, s.v)))
            elif y < .8: s.do(r.choice(["shl", "shr"]), r.choice([0, 1, 8, 16, 31, 32, 33, 63, 64, 65, 96, 127, r.randrange(128), r.randrange(128)]))
            elif y < .87: s.do("swap", r.randrange(7))
            elif y < .9: s.do("keep", r.randrange(4))
            else:
                w = r.choice([1, 2, 4, 8]); s.do("put", w, r.randrange(16 // w), be(word(r, 8 * w), w)); s.v = 0 if False else s.v
                # (the register's value is only a guide to interesting operands)
            s.look(r, r.randrange(3))
    return s.ops
def systematic(thorough):
    out = []
    # all pairs of edge values: sum, both differences, comparisons
    vals = EDGE if not thorough else [h << 64 | l for h in W64 for l in W64]
    for x in vals:
        ops = []
        for y in vals:
            ops += [("load", [len(ops) % 8, be(x)]), ("cmp", [be(y)]), ("add", [be(y)]), ("load", [1, be(x)]), ("sub", [be(y)])]
        out.append(ops)
    # every shift of values with bits at every word's edge
    for x in [M - 1, 1, 1 << 127, 0x0123456789abcdeffedcba9876543210, 0x80000000000000018000000000000001]:
        for d in ("shl", "shr"): out.append([o for n in range(128) for o in (("load", [n % 8, be(x)]), (d, [n]))])
    # all powers of two and of ten and their neighbours, printed
    ps = [(p + d) % M for p in [1 << i for i in range(128)] + [10 ** i for i in range(39)] for d in (-1, 0, 1)]
    for i in range(8): out.append([o for x in ps[i::8] for o in (("load", [x % 8, be(x)]), ("dec", []), ("hex", []), ("pad", []))])
    # every piece at every width
    x = 0x0123456789abcdeffedcba9876543210
    out.append([("load", [0, be(x)])] + [("get", [w, i]) for w in (1, 2, 4, 8) for i in range(16 // w)] + [o for w in (1, 2, 4, 8) for i in range(16 // w) for o in (("put", [w, i, [17 * w + j for j in range(w)]]), ("get", [w, i]))])
    out.append([o for k in range(7) for o in (("load", [k, be(x)]), ("swap", [k]), ("keep", [k % 4]))] + [("zero", []), ("dec", []), ("hex", []), ("pad", [])])
    return out

def run(ctx):
    r = ctx.rng
    inv = "SPECIFICATION Spec\nINVARIANTS Laws Shifts Texts\n"
    vals = EDGE[::2] + [0x0123456789abcdeffedcba9876543210, 255, 256, 10 ** 38] if ctx.quick else [h << 64 | l for h in W64 for l in W64] + [10 ** i for i in range(39)]
    ctx.model_check("U128", inv, consts(vals, [0, 1, 7, 8, 9, 63, 64, 65, 127] if ctx.quick else range(128)))
    for name, variant, defs in (("the native implementation", "asan", ["-DWANT_NATIVE=1"]), ("the portable implementation", "asan+fb", FB + ["-DWANT_NATIVE=0"])):
        exe = ctx.driver("drv_u128.c", variant, defs=defs, cflags=["-fsanitize=undefined", "-fno-sanitize=alignment"])
        seqs = systematic(not ctx.quick) + [gen(r, 220) for _ in range(40 if ctx.quick else 2500)]
        r.shuffle(seqs)
        vf.trace_check(ctx, "U128", exe, seqs, consts(), what="128-bit integers, %s" % name, shards=8, timeout=800)
    ctx.assumptions += ["shifts are by less than 128 bits; the host is little-endian"]
