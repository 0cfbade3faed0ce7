"""C16: a thread runs its body exactly once and join reports its outcome."""
import vf

CFG = "SPECIFICATION Spec\nVIEW View\nINVARIANTS DistinctIds JoinedAfter\nPROPERTIES StableIds BodyOnce\n"
def consts(nt, ids=30, errs="{}"): return {"NT": nt, "MaxId": ids, "MCErrs": errs}
def N(i, f=1, name=None): return ("new", [i, f], "t%d" % i if name is None else name)
def S(i, fail=0): return ("start", [i, fail], "")
def J(i): return ("join", [i], "")
def F(i): return ("free", [i], "")
ID = ("id", [0], "")
def E(code, msg): return ("err", [code], msg)
def RC(n): return ("rc", [n], "")
BODIES = [[], [ID], [E(5, "bad"), RC(-1)], [RC(-1)], [E(70000, "x"), RC(0)], [ID, E(9, "worse than ever before"), RC(7)], [E(5, ""), RC(-1)], [RC(1), ID, ID]]
NAMES = ["", "a", "a rather long thread name", "exactly15chars.", "sixteen chars ok"]

def run(ctx):
    r = ctx.rng
    ctx.model_check("Threads", CFG, consts(2, 4, "{<<0, <<0, 0>>, <<>>>>, <<-1, <<0, 5>>, <<98>>>>, <<-1, <<0, 0>>, <<>>>>}"))
    exe = ctx.sched_driver("drv_conc.c")
    sc = []
    for k, b in enumerate(BODIES):
        for f in (0, 1):
            nm = NAMES[(k + f) % len(NAMES)]
            sc.append(("thread", 0, [[N(1, f, nm), S(1), ID, J(1)], b]))
        b2 = BODIES[(k + 3) % len(BODIES)]
        sc.append(("thread", 0, [[N(1), N(2, 0), S(1), S(2), J(2), J(1)], b, b2]))
        sc.append(("thread", 0, [[N(1), S(1), N(2), S(2), J(1), J(2)], b, b2]))
    sc += [("thread", 0, [[N(1), F(1)], []]), ("thread", 0, [[N(1, 0), F(1)], []]), ("thread", 0, [[N(1), S(1, 1), F(1)], []]),
           ("thread", 0, [[N(1), S(1, 1), S(1), J(1)], BODIES[2]]), ("thread", 0, [[N(1), N(2), F(2), S(1), J(1)], BODIES[5], []]),
           # a thread makes, starts and joins another; raw threads ask for ids at the same time
           ("thread", 0, [[N(1), S(1), J(1)], [N(2), S(2), ID, J(2)], BODIES[2]]),
           ("thread", 0, [[N(1), S(1), J(1)], [N(2), S(2, 1), F(2), RC(-1)], []]),
           ("thread", 0, [[("raw", [1], ""), ("raw", [2], ""), ID, ("rawjoin", [1], ""), ("rawjoin", [2], ""), ID], [ID, ID], [ID, ID]]),
           ("thread", 0, [[("raw", [1], ""), N(2), S(2), ID, J(2), ("rawjoin", [1], "")], [ID, N(3), S(3), J(3), ID], [ID], BODIES[2]]),
           ("thread", 0, [[("raw", [1], ""), ("raw", [2], ""), N(3), ID, ("rawjoin", [1], ""), ("rawjoin", [2], ""), F(3)], [N(4), F(4), ID], [ID, N(5), F(5)], [], [], []]),
           ("thread", 0, [[N(1), S(1), N(2), S(2), N(3), S(3), J(3), J(2), J(1)], [ID], [E(4, "q"), RC(-1)], [RC(-1)]])]
    for _ in range(6 if ctx.quick else 60):
        n = r.choice([2, 3]); order = [i for i in range(1, n + 1)]; main = []
        for i in order: main.append(N(i, r.randrange(2), r.choice(NAMES)))
        r.shuffle(order)
        started = [i for i in order if r.random() < .8]
        main += [S(i) for i in started]; r.shuffle(order)
        for i in order: main.append(J(i) if i in started else F(i))
        sc.append(("thread", 0, [main] + [r.choice(BODIES) for _ in range(n)]))
    pre, runs = (2, 1200) if ctx.quick else (3, 40000)
    vf.explore(ctx, "Threads", exe, sc, consts(6), "threads", maxpre=pre, maxruns=runs)
    ctx.assumptions.append("schedules are sequentially consistent interleavings at the granularity of conflicting accesses; at most %d preemptions" % pre)
