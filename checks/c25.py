"""C25: registered cleanup functions all run once, in priority order, at exit."""
import vf, itertools

CFG = "SPECIFICATION Spec\nVIEW View\nINVARIANTS Complete\nPROPERTIES Ordered\n"
ALGO = "SPECIFICATION Spec\nPROPERTIES AbsNext Ends\n"
MIN, MAX = -2**31, 2**31 - 1
C0 = {"MCFns": "{}", "MCPrios": "{}", "MCMax": 0}
REG, NAMED, USE, THREAD = range(4)

def run(ctx):
    c = {"MCFns": "{1,2}", "MCPrios": "{-1,0,1}", "MCMax": 3 if ctx.quick else 4}
    ctx.model_check("Cleanup", CFG, c)
    ctx.model_check("CleanupAlgo", ALGO, dict(c, Pop="TRUE", MCMax=4 if ctx.quick else 5))
    ctx.model_check("CleanupAlgo", ALGO, dict(c, Pop="FALSE", MCMax=3), expect_ok=False)
    exe = ctx.driver("drv_cleanup.c")
    r = ctx.rng
    def sc(main, bodies=(), nfn=None, st=0, how=0):
        n = nfn or max([a[1] for b in list(bodies) + [main] for a in b if a[0] != USE] + [0]) + 1
        b = list(bodies) + [[]] * (n - len(bodies))
        return ("run", [n] + [[list(a) for a in x] for x in b] + [[list(a) for a in main]] + [st, how])
    s = [sc([]), sc([], st=7), sc([(USE, 0, 0)]), sc([(REG, 0, 0)], st=255, how=1)]
    # every order of registration of a few priorities, extremes included
    for ps in ((0, 1, 2, 3), (-1, 0, 1, -2), (MIN, 0, MAX, -1), (MIN, MIN + 1, MAX - 1, MAX), (0, 0, 1, 1), (5, 5, 5, 5), (MAX, MAX, MIN, MIN)):
        for o in set(itertools.permutations(range(4))):
            s.append(sc([(r.choice([REG, NAMED]), i, ps[i]) for i in o]))
    # a cleanup function that registers another, below, at and above its own priority, first, in the middle or last
    for p in (-5, 0, 5, MAX - 1, MIN):
        for q in (MIN, p, p - 1 if p > MIN else p, p + 1, 3, MAX):
            for others in ([], [MIN, MAX], [p], [0, 4]):
                main = [(REG, 0, p)] + [(REG, 2 + i, o) for i, o in enumerate(others)]
                r.shuffle(main)
                s.append(sc(main, [[(r.choice([REG, NAMED]), 1, q)], [(REG, 6, q)] if r.random() < .5 else []], 8, r.choice([0, 3])))
    # the same function registered several times, and by itself
    for n in (2, 3, 6):
        s.append(sc([(REG, 0, r.choice([0, i, -i, 7])) for i in range(n)] + [(REG, 1, 2)], [[(REG, 0, r.choice([MIN, 2, 9])), (REG, 0, 1)]]))
    # library facilities in cleanup functions: used before or not, before and after the library's own cleanup
    for k in range(7):
        for p in (MIN, -1, 0, 1, 40, MAX - 1):
            for pre in ([], [(USE, 0, 0)], [(USE, 3, 0)]):
                s.append(sc(pre + [(REG, 0, p), (REG, 1, r.choice([0, p]))], [[(USE, k, 0)], [(USE, r.randrange(7), 0)]], how=r.choice([0, 1])))
    s.append(sc([(REG, i, p) for i, p in enumerate((-3, 0, 0, 1, 9))], [[(USE, r.randrange(5), 0), (REG, 6, r.choice([MIN, 0, 5]))] for _ in range(7)]))
    for _ in range(60 if ctx.quick else 6000):
        n = r.randrange(1, 12)
        pool = r.choice([[0, 1, 2], [MIN, -1, 0, 1, MAX], [r.randrange(MIN, MAX + 1) for _ in range(6)], [0], list(range(-20, 20))])
        def acts(m, p=None): 
            l = []
            for _ in range(m):
                k = r.choice([REG, REG, NAMED, THREAD, USE])
                l.append((k, r.randrange(7), 0) if k == USE else (k, r.randrange(n), r.choice(pool)))
            return l
        bodies = [[a for a in acts(r.choice([0, 0, 1, 2, 3]))] for _ in range(n)]
        # the error condition is not used at the very highest priority, at which it is released itself
        if MAX in pool: bodies = [[a for a in b if a[0] != USE or a[1] in (3, 6)] for b in bodies]
        s.append(sc(acts(r.randrange(0, 25)), bodies, n, r.choice([0, 0, 1, 99]), r.choice([0, 1])))
    for n in (70, 300):
        s.append(sc([(r.choice([REG, NAMED]), r.randrange(9), r.choice([0, i, -i, r.randrange(MIN, MAX + 1)])) for i in range(n)]))
    vf.scenario_check(ctx, "Cleanup", exe, s, C0, "cleanup at exit")
    ctx.assumptions.append("cleanup functions of the highest priority do not set error conditions")
