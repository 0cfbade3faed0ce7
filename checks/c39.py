"""C39: a checked call hands every failure on, and nothing else."""
import vf

CFG = "SPECIFICATION Spec\nVIEW View\nPROPERTIES Rules\n"
BYERR, BYINT, BYPTR = ["ee", "xe", "rie", "rpe"], ["ei", "xi", "rii", "rpi"], ["ep", "xp", "rip", "rpp"]
PINT, PPTR = ["ei_posix", "rii_posix", "rpi_posix"], ["ep_posix", "rip_posix", "rpp_posix"]
INTFN, PTRFN = {"rie", "rii", "rip", "rii_posix", "rip_posix"}, {"rpe", "rpi", "rpp", "rpi_posix", "rpp_posix"}
ALL = BYERR + BYINT + BYPTR + PINT + PPTR
def tl(x): return '"%s"' % x if isinstance(x, str) else str(x) if isinstance(x, int) else "<<%s>>" % ",".join(map(tl, x))
def st(l): return "{%s}" % ",".join(map(tl, l))
def consts(levels=(), scripts=(), depth=1): return {"MCLevels": st(levels), "MCScripts": st(scripts), "MCDepth": depth}
def takes_ptr(m): return m in BYPTR or m in PPTR
LEVELS = [[m, o, p] for m in ALL for p in (0, 1) if not (m in INTFN and p) and not (m in PTRFN and not p) for o in ((0, 7, -1) if m in ("xe", "xi", "xp") and not p else (0,))]
INTS = [0, 1, -1, 2, -2, 256, 65536, 2147483647, -2147483648]

def chain(r, depth):
    ls = []
    for i in range(depth):
        want = r.choice([0, 1]) if i == 0 else int(takes_ptr(ls[-1][0]))
        ok = [l for l in LEVELS if l[2] == want and (i == depth - 1 or l[0] not in PINT + PPTR)]
        ls.append(list(r.choice(ok)))
        if ls[-1][0] in ("xe", "xi", "xp") and not want: ls[-1][1] = r.choice(INTS + [-7, 100])
    return ls

def script(r, m):
    posix = m in PINT + PPTR
    out = []
    def call(): return [r.choice([0, 1]) if takes_ptr(m) else r.choice([i for i in INTS if i >= 0] + [-1] * 6 if posix else INTS + [0] * 6), r.choice([0, 0, 0, 11, 70000]) if not posix else 0, r.choice([0, 2, 4, 5, 11, 13])]
    for _ in range(r.choice([0, 0, 0, 1, 2, 6]) if posix else 0): out.append([0 if takes_ptr(m) else -1, 0, 4])
    x = call()
    if posix and x[0] == (0 if takes_ptr(m) else -1) and x[2] in (4, 0): x[2] = r.choice([2, 5, 11, 22, 110])
    return out + [x]

def gen(r, n):
    ops = []
    while len(ops) < n:
        x = r.random()
        if x < .08: ops.append(("set", [r.choice([1, 9, 4, 70001])]))
        elif x < .3: ops.append(("clear", []))
        elif x < .31: ops.append((r.choice(["insist", "insist", "unreachable"]), []))
        else:
            ls = chain(r, r.choice([1, 1, 2, 3, 5, 8]))
            ops.append(("run", [ls, script(r, ls[-1][0])]))
        if ops[-1][0] == "insist": ops[-1] = ("insist", [r.choice([0, 1])])
    return ops

def run(ctx):
    q = ctx.quick
    some = [l for l in LEVELS if not (l[0] in ("xe", "xp") and l[1] == -1)]
    scripts = [[[0, 0, 0]], [[1, 0, 0]], [[-1, 0, 5]], [[0, 0, 5]], [[1, 11, 5]], [[0, 11, 0]], [[-1, 0, 4], [3, 0, 4]], [[0, 0, 4], [1, 0, 5]], [[-1, 0, 4], [-1, 0, 5]], [[0, 0, 4], [0, 0, 4], [0, 0, 11]]]
    one = [x for x in scripts if len(x) == 1]
    ctx.model_check("Checked", CFG, consts(some, one[:3] if q else one, 3))
    edges = ctx.graph("Checked", CFG + "ACTION_CONSTRAINT Emit\n", consts(LEVELS, scripts, 1)) + ctx.graph("Checked", CFG + "ACTION_CONSTRAINT Emit\n", consts(some, one, 2))
    r = ctx.rng
    for name, defs in (("drv_checked", []), ("drv_checked_noisy", ["-DCORK_PRINT_ERRORS=1", "-DCORK_PRINT_ERROR_(a,b,c)=(void)fprintf(stdout,\"%s %s %u %s\",a,b,(unsigned)(c),cork_error_message())"])):
        exe = ctx.driver("drv_checked.c", variant="asan", name=name, extra=defs)
        vf.replay_graph(ctx, exe, edges, what="checked calls")
        seqs = [gen(r, 200) for _ in range(40 if q else 1500)]
        vf.trace_check(ctx, "Checked", exe, seqs, consts(), what="checked calls")
    ctx.assumptions += ["an int-checking macro is given an int (a wider result would be cut before it is looked at)", "a POSIX call that fails answers -1 (or NULL) and sets errno to something other than 0"]
