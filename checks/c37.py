"""C37: stable hashing is the fixed published function of seed and bytes."""
import os
import vf

def consts(b="{}", n=0, seeds="{}"): return {"MCByte": b, "MCMax": n, "MCSeeds": seeds}
def byte(r): return r.choice([0, 1, 127, 128, 255, 10]) if r.random() < .25 else r.randrange(256)
def data(r, n):
    y = r.random()
    if y < .1: return [r.choice([0, 255, 128])] * n
    if y < .2: return [255 if i == r.randrange(n) else 0 for i in range(n)]
    return [byte(r) for _ in range(n)]
def seed(r, n): return r.choice([[0] * n, [255] * n, [0] * (n - 1) + [1], [128] + [0] * (n - 1)]) if r.random() < .25 else [r.randrange(256) for _ in range(n)]
def codes(s): return list(s.encode("latin-1"))
def word(r): return "".join(chr(r.choice([r.randrange(33, 127), r.randrange(1, 256), 97])) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 31, 33, 60])))
def tool(r):
    kind, av = "stable", []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        o, kind = r.choice([("-b", "big"), ("--big", "big"), ("-s", "stable"), ("--stable", "stable"), ("-f", "fast"), ("--fastest", "fast"), ("-bs", "stable"), ("-sb", "big"), ("-fb", "big"), ("--bi", "big")])
        av.append(o)
    s = word(r)
    y = r.random()
    if y < .1: av += r.choice([[], [s or "x", "y"], [s or "x", "-b"], ["-q", "x"], ["--frob", "x"], ["--big=3", "x"], ["--"], ["x", "--", "y"]]); kind = "usage" if av else "usage"; s = ""
    elif y < .25: s = "-" + s; av += ["--", s]
    else:
        if s.startswith("-") and s != "-": av.append("--")
        av.append(s)
    return ("tool", [kind, codes(s), [codes(a) for a in av]])
def cases(r, n, top):
    cs = []
    # every length at every alignment of four (sixteen), between exact ends
    for l in range(0, 68):
        for al in r.sample(range(4), 2): cs.append(("stable", [seed(r, 4), data(r, l), al, 0]))
        cs.append(("stable", [seed(r, 4), data(r, l), r.randrange(16), 1]))
        for al in r.sample(range(16), 2): cs.append(("big", [seed(r, 16), data(r, l), al, 0]))
        cs.append(("macros", [seed(r, 16), data(r, l), r.randrange(16), 0]))
        cs.append(("fast", [seed(r, 4), data(r, l), r.randrange(16), r.randrange(2), r.randrange(16)]))
    # each byte of a short text takes part, with its high bit
    for l in (1, 2, 3, 4, 5, 7, 15, 16, 17, 31):
        for i in range(l):
            for x in (1, 128): d = [x if j == i else 0 for j in range(l)]; cs.append(("stable", [[0] * 4, d, i % 4, 0])); cs.append(("big", [[0] * 16, d, i % 16, 0]))
    for i in range(32): cs.append(("stable", [[128 >> i % 8 if j == i // 8 else 0 for j in range(4)], codes("seed"), 0, 0]))
    for i in range(0, 128, 3): cs.append(("big", [[128 >> i % 8 if j == i // 8 else 0 for j in range(16)], codes("seed"), 0, 0]))
    for s in (4, 16):
        z = [r.randrange(256) for _ in range(16)]
        for i in range(128): w = list(z); w[i // 8] ^= 128 >> i % 8; cs.append(("equal", [z, w])) if i % s == 0 or s == 16 else None
    while len(cs) < n:
        y = r.random(); l = r.choice([r.randrange(40), r.randrange(40), r.randrange(200), 4 * r.randrange(20), 16 * r.randrange(8)]) if r.random() < .96 else r.randrange(top)
        if y < .34: cs.append(("stable", [seed(r, 4), data(r, l), r.randrange(16), r.randrange(2)]))
        elif y < .39: cs.append(("macros", [seed(r, 16), data(r, l), r.randrange(16), r.randrange(2)]))
        elif y < .6: cs.append(("big", [seed(r, 16), data(r, l), r.randrange(16), r.randrange(2)]))
        elif y < .68: cs.append(("fast", [seed(r, 4), data(r, l), r.randrange(16), r.randrange(2), r.randrange(16)]))
        elif y < .74: cs.append(("chain", [seed(r, 4), [data(r, r.randrange(20)) for _ in range(r.randrange(6))]]))
        elif y < .78: cs.append(("bigchain", [seed(r, 16), [data(r, r.randrange(40)) for _ in range(r.randrange(4))]]))
        elif y < .86: cs.append(("var", [seed(r, 4), data(r, r.choice([1, 2, 4, 4, 7, 8, 8, 12, 16, 20, 33])), r.randrange(3)]))
        elif y < .9:
            a = seed(r, 16); b = list(a)
            if r.random() < .5: b[r.randrange(16)] ^= 1 << r.randrange(8)
            cs.append(("equal", [a, b]))
        elif y < .93: cs.append(("values", [[codes(w) for w in sorted({word(r) for _ in range(r.randrange(60))})]]))
        else: cs.append(tool(r))
    return cs

def run(ctx):
    r = ctx.rng
    ctx.model_check("Murmur", "SPECIFICATION Spec\nINVARIANTS Shape Apart\n", consts("{0, 1, 128, 255}" if ctx.quick else "{0, 1, 2, 64, 127, 128, 254, 255}", 3, "{<<0, 0, 0, 0>>, <<255, 0, 128, 1>>}"))
    exe = ctx.driver("drv_murmur.c", cflags=["-fsanitize=undefined", "-fno-sanitize=alignment,shift"])
    toolexe = ctx.driver([os.path.join(vf.REPO, "src/cork-hash/cork-hash.c")], name="cork-hash", cflags=["-fsanitize=undefined", "-fno-sanitize=alignment,shift"])
    cs = cases(r, 7000 if ctx.quick else 60000, 1200 if ctx.quick else 6000)
    cs += [("stable", [seed(r, 4), data(r, l), 1, 0]) for l in (256, 257, 65535, 65539)] + [("big", [seed(r, 16), data(r, l), 3, 0]) for l in (256, 257, 4099)]
    r.shuffle(cs)
    vf.trace_check(ctx, "Murmur", exe, [cs[i::32] for i in range(32)], consts(), args=[toolexe], what="hash functions", shards=8, timeout=800)
    ctx.assumptions += ["a 64-bit little-endian host, where the big hash is MurmurHash3_x64_128 with the seed's halves as its two words",
                        "the fast hash is only consistent within a process: its value is not specified"]
