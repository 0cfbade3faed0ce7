"""C35: timestamp conversion and formatting are exact."""
import vf

def codes(s): return [ord(c) for c in s]
def le(v): return [v >> 8 * i & 255 for i in range(4)]
def consts(sec="{}", fmt="{}", n=0, frac="{}"): return {"MCSec": sec, "MCFormat": fmt, "MCLen": n, "MCFrac": frac}
DAYS = [0, 1, 30, 31, 58, 59, 60, 364, 365, 788, 789, 790, 10956, 10957, 11015, 11016, 11017, 16435, 24855, 24856, 47540, 47541, 47542, 49709]
def sec(r):
    d = r.choice(DAYS + [r.randrange(49710)] * 12); s = r.choice([0, 1, 59, 60, 3599, 3600, 43199, 43200, 86399] + [r.randrange(86400)] * 9)
    return [d, s] if d * 86400 + s < 2**32 else [d - 1, s]
def frac(r, d):
    """fractions near the boundary between two readings"""
    y = r.random()
    if y < .2: return r.choice([0, 1, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32 - 2, 2**32 - 5])
    x = r.choice([r.randrange(d), d - 1, d - 1, 0, d // 2])
    if y < .6: g = (2 * x + 1) * 2**32 // (2 * d)
    else: g = x * 2**32 // d
    return min(2**32 - 1, max(0, g + r.randrange(-3, 4) * r.choice([1, 1, 2**32 // d // 3 + 1])))
def fmt(r, bad):
    t = ""
    for _ in range(r.choice([0, 1, 1, 2, 3, 6, 12])):
        y = r.random()
        if y < .45: t += "%" + r.choice("YmdHMSs%")
        elif y < .7: t += "%" + r.choice(["", "0", "00"]) + str(r.randrange(1, 10)) + "f"
        else: t += r.choice(["", " ", "-", "T", "f", "Y", "\t", "x" * 300, "\xe9", "100", ":", "d", "\n"])
    if bad:
        b = r.choice(["%", "%f", "%0f", "%10f", "%00f", "%100f", "%99999999999f", "%4294967299f", "%18446744073709551617f", "%4294967296f", "%5", "%q", "%y", "%D", "%h", "%F", "%e", "%-", "% d", "%.3f", "%\xe9", "%3", "%\n", "%T", "%Z", "%z", "%p", "%a", "%n", "%E", "%1000000000001f", "%256f", "%65537f", "%257f"])
        j = r.randrange(len(t) + 1)
        while j > 0 and (t[j - 1] in "%0123456789"): j -= 1
        t = t[:j] + b + t[j:] if b[-1] not in "%0123456789" or r.random() < .5 else t + b
    elif r.random() < .08: t += r.choice(["%3Y", "%02d", "%5%", "%12s"])
    return codes(t)
def gen(r, n):
    ops = []
    while len(ops) < n:
        u = r.choice(["sec", "gsec", "msec", "usec", "nsec"]); s = sec(r)
        d = {"msec": 1000, "usec": 10**6, "nsec": 10**9}.get(u)
        if d: ops.append((u, s + [r.choice([0, 1, 2, d - 1, d - 2, d // 2, d // 2 - 1, r.randrange(d), r.randrange(d), 999 * (d // 1000), d // 1000 * r.randrange(1000)])]))
        elif u == "sec": ops.append((u, s))
        else: ops.append((u, s + [le(frac(r, 10**r.choice([1, 2, 3, 3, 4, 5, 6, 6, 7, 8, 9, 9])))]))
        for x in r.sample(["msec", "usec", "nsec"], 3): ops.append(("read", [x]))
        for _ in range(r.choice([1, 2])): ops.append(("format", [r.choice([0, 0, 0, 19800, -28800, 3600, -3600, 50400, -43200, 20700, 86399 - 3600, -1, 1]), codes(r.choice(["", "", "abc", "xy"])), fmt(r, r.random() < .25)]))
        if r.random() < .02: ops.append(("now", []))
    return ops
def run(ctx):
    r = ctx.rng
    days = "(0..%d)" % (900 if ctx.quick else 49709)
    ctx.model_check("Timestamp", "SPECIFICATION Spec\nINVARIANTS CalendarOk\n", consts("{<<d, 0>> : d \\in %s} \\cup {<<d, 86399>> : d \\in {%s}}" % (days, ",".join(map(str, DAYS[:-1]))), "{}", 0, "{<<0,0,0,0>>}"))
    ctx.model_check("Timestamp", "SPECIFICATION Spec\nINVARIANTS Readable\n", consts("{<<0, 0>>}", "{37, 102, 49, 57, 48, 89, 120}", 4 if ctx.quick else 5, "{<<a, b, c, d>> : a \\in {0, 255}, b \\in {0, 255}, c \\in {0, 255}, d \\in {0, 127, 255}}" if not ctx.quick else "{<<255,255,255,255>>, <<0,0,0,128>>}"))
    exe = ctx.driver("drv_time.c")
    seqs = [gen(r, 260) for _ in range(48 if ctx.quick else 1500)]
    # every millisecond, and every pair of boundaries of the other units
    xs = [("msec", [r.randrange(40000), r.randrange(86400), x]) for x in range(1000)] + [(u, [0, 5, x]) for u, d in (("usec", 10**6), ("nsec", 10**9)) for x in list(range(40)) + list(range(d - 40, d)) + [r.randrange(d) for _ in range(300 if ctx.quick else 20000)]]
    r.shuffle(xs)
    for i in range(16): seqs.append([o for x in xs[i::16] for o in [x] + [("read", [u]) for u in ("msec", "usec", "nsec")]])
    # formats over a small alphabet
    import itertools
    fs = ["".join(f) for n in (1, 2, 3) for f in itertools.product("%f1Yd0 s", repeat=n)]
    for i in range(8): seqs.append([("nsec", [11016, 3661, 999999999])] + [("format", [0, [], codes(f)]) for f in fs[i::8]])
    # the first and last moments of every month from 1970 to 2106, and every letter as a specifier
    import datetime
    ms = [(datetime.date(y, m, 1) - datetime.date(1970, 1, 1)).days for y in range(1970, 2106) for m in range(1, 13)]
    for i in range(8): seqs.append([o for d in ms[i::8] for o in [("sec", [d, 0]), ("format", [0, [], codes("%Y-%m-%d %H:%M:%S %s")])] + ([("sec", [d - 1, 86399]), ("format", [r.choice([0, 1, 3600, -7200]), [120], codes("%Y%m%d%H%M%S")])] if d else [])])
    seqs.append([("gsec", [19000, 45296, le(0xfffffff0)])] + [("format", [0, [], [37, c]]) for c in range(1, 256)] + [("format", [0, [], codes("%" + str(w) + "f")]) for w in range(0, 40)])
    vf.trace_check(ctx, "Timestamp", exe, seqs, consts(), what="timestamp specification", shards=8)
    ctx.assumptions += ["a reading is the nearest one to the fraction or to one no more than one gammasecond away, below one second", "fractions given to a constructor are below one second; seconds fit 32 bits",
                        "time zones have fixed offsets; a width before a specifier other than %f may be refused or ignored"]
