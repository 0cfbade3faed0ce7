"""C33: IP address parsing and printing are exact and mutually inverse."""
import vf
from iplib import *

def octet(r): return r.choice(["0", "1", "9", "10", "99", "100", "255", "249", "256", "260", "300", "999", "1000", "00", "007", "0255", "0256", "0000000000000012", "", "a", "1a", " 1", "1 ", "+1", "-1", "0x1", "4294967296", "25%d" % r.randrange(10), "%d" % r.randrange(256)])
def good(r): return r.choice(["0", "1", "9", "10", "99", "100", "255", "007", "%d" % r.randrange(256)])
def v4text(r):
    if r.random() < .5: return ".".join(good(r) for _ in range(4))
    return ".".join((octet if r.random() < .4 else good)(r) for _ in range(r.choice([4, 4, 4, 3, 5, 1, 2])))
def hextet(r):
    if r.random() < .12: return r.choice(["", "12345", "00000", "g", "fffff", " 1", "-1", "0x1", "1.", ".1", "fG"])
    return r.choice(["0", "1", "f", "F", "aB", "0001", "ffff", "FFFF", "%x" % r.randrange(65536), "%04X" % r.randrange(65536)])
def v6text(r):
    k = r.choice([0, 0, 1, 1, 1, 2])
    n = r.choice([8, 8, 8, 7, 9]) if k == 0 else r.randrange(0, 10)
    gs = [hextet(r) for _ in range(n)]
    if r.random() < .3: gs = gs[:-1] if r.random() < .5 else gs[:-2]; gs.append(v4text(r))
    if k == 0: return ":".join(gs)
    i = r.randrange(0, len(gs) + 1)
    t = ":".join(gs[:i]) + "::" + ":".join(gs[i:])
    if k == 2: j = r.randrange(0, len(t)); t = t[:j] + r.choice([":", "::", ".", ""]) + t[j:]
    return t
def mutate(r, t):
    for _ in range(r.choice([1, 1, 2])):
        j = r.randrange(0, len(t) + 1); y = r.random()
        c = r.choice(list("0159afAFgG:./@`% \x01\x7f\x80\xff") + ["::", "..", "\t"])
        if y < .4: t = t[:j] + c + t[j:]
        elif y < .7: t = t[:j] + t[j + 1:]
        else: t = t[:j] + c + t[j + 1:]
    return t
def cases(r, n, deep):
    cs = []
    def parse(t, kinds=(0, 4, 6)):
        for k in kinds: cs.append(("parse", [k, codes(t)]))
    # every character in an address's places, and every number of groups around a double colon
    for c in range(1, 256):
        for t in ("1.2.%s.4", "1.2.3%s4", "::%s", "1:%s::", "1:2:3:4:5:6:7:8%s", "%s::", "%s1.2.3.4"): parse(t % chr(c), [r.choice((0, 4, 6))])
    for i in range(0, 10):
        for j in range(0, 10):
            l, q = ":".join("12345678abc"[:i]), ":".join("abcdef98765"[:j])
            parse(l + "::" + q, [0, 6])
            parse(l + ("::" if r.random() < .5 else ":") + (q + ":" if q else "") + "1.22.133.244", [6])
            if j == 0: parse(l, [0, 6]); parse(l + ":", [6]); parse(":" + l, [6]); parse(l + ":::", [6]); parse(l + ":1.2.3.4", [0, 6])
    for o in list(range(0, 300)) + [1000, 2550, 65536, 4294967295, 4294967296, 4294967297]:
        p = r.randrange(4); q = ["1", "2", "3", "4"]; q[p] = str(o); parse(".".join(q), [r.choice((0, 4))]); parse("::" + ".".join(q), [6])
    for h in ["%x" % (1 << b) for b in range(20)] + ["ffff", "10000", "fffff", "FFFF", "0ffff", "00000"]:
        p = r.randrange(8); q = list("12345678"); q[p] = h; parse(":".join(q), [r.choice((0, 6))])
    toks = ["1", "ffff", "0", ":", "::", ".", "1.2.3.4", "256", "g", "12345"]
    import itertools
    allk = list(itertools.product(toks, repeat=4))
    for t in (allk if deep else r.sample(allk, 1500)): parse("".join(t), [r.choice((0, 4, 6))])
    for t in ["", ":", "::", ".", "...", "....", ":::", "::::", "1", "1.2.3.4.", ".1.2.3.4", "::.1.2.3", "::1.2.3", "::1..2.3", "::1.2.3.4:", "::1.2.3.4:5", "1.2.3.4::", "1.2.3.4", "::1.2.3.4.5", "1:2:3:4:5:6:1.2.3.4",
              "1:2:3:4:5:6:7:1.2.3.4", "1:2:3:4:5:1.2.3.4", "1:2:3:4:5::1.2.3.4", "1:2:3:4:5:6::1.2.3.4", "::1:2:3:4:5:6:7", "::1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7::", "1:2:3:4:5:6:7:8::", "1::2:3:4:5:6:7:8",
              "1:2::3:4::5", "::ffff:1.2.3.4", "::FFFF:1.2.3.4", "0" * 3000 + "1.2.3.4", "1.2.3." + "0" * 3000, "1:" * 3000, ":" * 3000, "1." * 3000, "::" + "0" * 3000, "fe80::1%eth0", "[::1]", "1.2.3.4/8", " ::1", "::1 "]: parse(t)
    while len(cs) < n:
        t = (v4text, v6text, v6text)[r.randrange(3)](r)
        if r.random() < .3: t = mutate(r, t)
        parse(t, [r.choice((0, 4, 6, 6 if ":" in t else 4))])
        v = r.choice((4, 6, 6)); b = addr4(r) if v == 4 else addr6(r)
        k = r.choice((0, v))
        cs.append((r.choice(("print", "round", "round")), [k, v, b]))
        y = r.random()
        if y < .2: cs.append(("copy", [r.randrange(3), v, b]))
        elif y < .5:
            c = list(b); j = r.randrange(len(c))
            if r.random() < .7: c[j] ^= 1 << r.randrange(8)
            cs.append(("equal", [k, v, b, v, c]))
        elif y < .6: cs.append(("equal", [0, 4, b[:4], 6, b[:4] + [0] * 12])); cs.append(("equal", [0, 6, b[:4] + [0] * 12, 4, b[:4]]))
        if r.random() < .3: cs.append(("parse", [k, vf_print(r, v, b)]))
    # every single bit of an address takes part in equality
    for v, n in ((4, 4), (6, 16)):
        for i in range(8 * n):
            b = [r.choice((0, 255, r.randrange(256))) for _ in range(n)]; c = list(b); c[i // 8] ^= 128 >> i % 8
            cs.append(("equal", [r.choice((0, v)), v, b, v, c])); cs.append(("round", [v, v, [128 >> i % 8 if j == i // 8 else 0 for j in range(n)]]))
    for m in range(256): cs.append(("round", [6, 6, sum([[0, 0] if m >> j & 1 else r.choice(([0, 1], [255, 255], [1, 0], [18, 52])) for j in range(8)], [])]))   # every pattern of zero groups
    return cs
def vf_print(r, v, b):
    if v == 4: return codes(".".join(r.choice(("%d", "%03d")) % x for x in b))
    return codes(":".join(r.choice(("%x", "%04X", "%04x")) % (b[i] * 256 + b[i + 1]) for i in range(0, 16, 2)))

def run(ctx):
    r = ctx.rng
    inv = "SPECIFICATION Spec\nINVARIANTS RoundTrip Generic Shape\n"
    toks = "{<<49>>, <<58>>, <<46>>, <<102>>, <<58,58>>, <<50,53,53>>}"
    ctx.model_check("Ip", inv, consts("{0, 1}" if ctx.quick else "{0, 1, 4660, 65535}", toks, 5 if ctx.quick else 7))
    ctx.model_check("Ip", inv, consts("{0}", "{<<49,58>>, <<58>>, <<49>>, <<49,46,50,46,51,46,52>>, <<48,49,58,49,58,49,58>>}", 6 if ctx.quick else 8))
    exe = ctx.driver("drv_ip.c")
    cs = cases(r, 12000 if ctx.quick else 400000, not ctx.quick)
    r.shuffle(cs)
    ctx.cov["inputs"] = len(cs)
    vf.trace_check(ctx, "Ip", exe, [cs[i::64] for i in range(64)], consts(), what="IP address specification", shards=8)
    ctx.assumptions += ["addresses are texts of any bytes; IPv4 numbers are decimal however many zeros they begin with, as the repository's tests have it",
                        "within an IPv6 address, a dotted quad whose first number has more than four digits may be accepted or refused"]
