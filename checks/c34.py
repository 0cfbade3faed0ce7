"""C34: an address is a valid network exactly when its host bits are all zero."""
import vf
from iplib import *

def pres(r, w): return list(range(0, w + 8)) + [63, 64, 65, 127, 128, 129, 160, 192, 255, 256, 2**31 - 1, -1, -2**31, w + 32, w + 64] + [r.randrange(w, 100000)]
def cases(r, n):
    cs = []
    for v, w in ((4, 32), (6, 128)):
        def add(b):
            ps = pres(r, w); r.shuffle(ps); cs.append(("nets", [r.choice((0, v)), v, b, ps]))
        add([0] * (w // 8)); add([255] * (w // 8))
        for i in range(w):                                    # one bit, alone; below it all ones; and after any prefix
            one = [0] * (w // 8); one[i // 8] = 128 >> i % 8; add(one)
            ones = [255 if j < i // 8 else 0 for j in range(w // 8)]; ones[i // 8] = (0xff00 >> i % 8 + 1) & 255; add(ones)
            rnd = [r.randrange(256) if j < i // 8 else 0 for j in range(w // 8)]; rnd[i // 8] = (r.randrange(256) & (0xff00 >> i % 8) | 128 >> i % 8) & 255; add(rnd)
            two = list(one); j = r.randrange(w); two[j // 8] |= 128 >> j % 8; add(two)
    while len(cs) < n:
        v = r.choice((4, 6)); b = addr4(r) if v == 4 else addr6(r)
        for j in range(r.randrange(len(b) + 1), len(b)): b[j] = 0
        cs.append(("nets", [r.choice((0, v)), v, b, pres(r, 8 * len(b))]))
    return cs
def run(ctx):
    exe = ctx.driver("drv_ip.c")
    ctx.model_check("Ip", "SPECIFICATION Spec\nINVARIANTS NetworkLaws\n", consts("{0, 1}" if ctx.quick else "{0, 1, 32768, 65535}"))
    cs = cases(ctx.rng, 900 if ctx.quick else 60000)
    ctx.rng.shuffle(cs)
    ctx.cov["inputs"] = sum(len(a[3]) for _, a in cs)
    vf.trace_check(ctx, "Ip", exe, [cs[i::32] for i in range(32)], consts(), what="network specification", shards=8)
    ctx.assumptions += ["single set bits at every position are tried against every prefix length from 0 to beyond the width"]
