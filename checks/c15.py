"""C15: the error condition is exact and private to each thread."""
import vf

CFG = "SPECIFICATION Spec\nVIEW View\nINVARIANTS Shape\nPROPERTIES Private\n"
def consts(nt, strs="{}", codes="{}", n=0, ops="{}"):
    return {"NT": nt, "MCStrs": strs, "MCCodes": codes, "MCLen": n, "MCOps": ops}
ALL = ["str", "fmt", "vfmt", "dep", "self", "selftail", "prestr", "prefmt", "depre", "preself", "clear", "get"]

def text(r, n): return [r.choice([32, 37, 97, 98, 120, 200, 255, 10]) for _ in range(n)]

def gen(r, lens, length, nt=1):
    ops, sizes = [], {}
    for _ in range(length):
        who = r.randrange(1, nt + 1); size = sizes.get(who, 0)
        x = r.random(); n = r.choice(lens); code = [r.randrange(65536), r.randrange(65536)]
        if x < .06: ops.append(("fails", [who, [0, 0], [], r.randrange(17)])); size = 80
        elif x < .12: ops.append(("works", [who, [0, 0], [], r.randrange(8)]))
        elif x < .16: ops.append(("sys", [who, [0, r.randrange(1, 140)], [], r.randrange(2)])); size = 30
        elif x < .18: ops.append(("unknown", [who, [0, 0], [], 0])); size = 30
        else:
            op = r.choice(ALL)
            if size > 6000 and op in ("self", "preself", "prestr", "prefmt", "depre"): op = r.choice(["str", "clear", "selftail"])
            if r.random() < .05 and op in ("str", "fmt", "vfmt"): code = [0, 0]
            ops.append((op, [who, code, text(r, n) if op not in ("clear", "get", "selftail") else [], r.randrange(2) if op != "dep" else r.randrange(60000)]))
            size = {"str": n, "fmt": n, "vfmt": n, "dep": n, "self": size + n, "selftail": size // 2, "clear": 0, "get": size, "preself": 2 * size + n}.get(op, size + n)
        sizes[who] = size
    return ops

def run(ctx):
    ctx.model_check("Errors", CFG, consts(2, "{<<>>, <<1>>, <<2,3>>}", "{<<0,0>>, <<0,5>>, <<65535,65535>>}", 3 if ctx.quick else 4, '{"str","dep","self","selftail","prestr","preself","clear","get","works"}'))
    exe = ctx.driver("drv_error.c")
    # every sequence of three operations over short messages, from the specification's graph
    c = consts(1, "{<<>>, <<97>>, <<98,37>>}", "{<<0,0>>, <<40000,7>>}", 3, '{%s}' % ",".join('"%s"' % o for o in ALL))
    edges = ctx.graph("Errors", CFG + "ACTION_CONSTRAINT Emit\n", c)
    vf.replay_graph(ctx, exe, edges, what="error condition")
    r = ctx.rng
    seqs = [gen(r, lens, 60) for lens in ([0, 1, 2, 3], [6, 7, 8, 9, 15, 16, 17, 31, 32, 33], [100, 255, 256, 257, 511, 512, 513], [1, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 5000]) for _ in range(8 if ctx.quick else 100)]
    vf.trace_check(ctx, "Errors", exe, seqs, consts(1), what="error condition")
    kexe = ctx.driver("drv_error.c", variant="asan+key", name="drv_error_key", defs=["-DCORK_CONFIG_HAVE_THREAD_STORAGE_CLASS=0"])
    # many threads that take turns: each sees its own condition, whatever the others do; a new one starts with none
    for nt in ((2, 3, 17, 40, 70) if ctx.quick else (2, 3, 5, 17, 33, 65, 129, 257)):
        seqs = []
        for _ in range(2 if ctx.quick else 12):
            every = [("str", [t, [0, t], text(r, 3), 0]) for t in range(1, nt + 1)] + [("get", [t, [0, 0], [], 0]) for t in range(1, nt + 1)]
            seqs.append(every + gen(r, r.choice([[0, 1, 2], [8, 16, 31]]), 120, nt) + [("get", [t, [0, 0], [], 0]) for t in range(1, nt + 1)])
        vf.trace_check(ctx, "Errors", exe, seqs, consts(nt), what="error conditions of %d threads" % nt)
        if nt in (3, 17, 65): vf.trace_check(ctx, "Errors", kexe, seqs, consts(nt), what="error conditions of %d threads, without compiler support for thread-local storage" % nt)
    # threads
    sx = ctx.sched_driver("drv_conc.c")
    def op(r):
        k = r.choice(["str", "fmt", "self", "prestr", "prefmt", "clear", "get", "str", "prefmt"])
        return (k, [r.choice([5, 6, 7, 2000000000])], "".join(chr(r.randrange(97, 123)) for _ in range(r.choice([0, 1, 3, 12, 30]))))
    sc = [("err", 0, [[op(r) for _ in range(n)] for _ in range(t)]) for t, n in ((2, 2), (2, 3), (3, 2), (3, 3), (4, 2)) for _ in range(4 if ctx.quick else 30)]
    sc.append(("err", 0, [[("get", [0], "")]] * 4))
    vf.explore(ctx, "Errors", sx, sc, consts(4), "error condition", maxpre=2, maxruns=1500 if ctx.quick else 20000)
    # the same without compiler support for thread-local storage: the first use sets it up, once
    kx = ctx.sched_driver("drv_conc.c", variant="sched+key", defs=["-DCORK_CONFIG_HAVE_THREAD_STORAGE_CLASS=0"])
    vf.explore(ctx, "Errors", kx, sc[::4] if ctx.quick else sc, consts(4), "error condition, with thread-specific keys", maxpre=2, maxruns=1500 if ctx.quick else 20000)
    ctx.assumptions.append("schedules are sequentially consistent interleavings at the granularity of conflicting accesses, with at most 2 preemptions (3 in thorough runs of the other concurrency checks)")
