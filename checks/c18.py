"""C18: atomic operations never lose or invent an update."""
import itertools
import vf

CFG = "SPECIFICATION Spec\nVIEW View\nINVARIANTS Widths NoneLost\nPROPERTIES CasOnly\n"
def consts(nt, tys="{}", fs="{}", vals="{}", calls=0): return {"NT": nt, "MCTys": tys, "MCFs": fs, "MCVals": vals, "MCCalls": calls}
FS = ["add", "padd", "sub", "psub", "cas"]
EDGE = [0, 1, 2, -1, -2, 65535, 65536, 2 ** 31 - 1, -2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, -2 ** 63, 2 ** 48 + 3]
def limbs(v, n): return [(v >> (16 * (n - 1 - i))) & 0xffff for i in range(n)]
def first(sc):
    iv = sc[1]; v = (iv + 2 ** 31) % 2 ** 32 - 2 ** 31
    return [{"op": "start", "a": [limbs(v, 2), limbs(v, 4)], "r": []}]

def one(r, tys, vals):
    ty = r.choice(tys); f = r.choice(FS if ty != "p" else ["cas"])
    return (ty + f, [r.choice(vals), r.choice(vals)], "")

def run(ctx):
    ctx.model_check("Atomics", CFG, consts(3, '{"u"}', '{"add"}', "{<<0, 1>>}", 4))
    ctx.model_check("Atomics", CFG, consts(2 if ctx.quick else 3, '{"i"}', '{"cas"}', "{<<0, 0>>, <<0, 1>>, <<65535, 65535>>}", 3))
    ctx.model_check("Atomics", CFG, consts(2, '{"u"}', '{"add", "padd", "sub", "psub", "cas"}', "{<<0, 1>>, <<65535, 65535>>}", 3))
    exe = ctx.sched_driver("drv_conc.c")
    r = ctx.rng
    # one thread, every operation on edge operands
    sc = []
    for ty in "iusp":
        for iv in (0, 1, -1, 2 ** 31 - 1, -2 ** 31, 5):
            for f in (FS if ty != "p" else ["cas"]):
                ops = [(ty + f, [x, y], "") for x in EDGE for y in ((r.choice(EDGE), r.choice(EDGE)) if f == "cas" else (0,))]
                sc += [("atomic", iv, [ops[i:i + 36]]) for i in range(0, len(ops), 36)]
            if ty != "p": sc.append(("atomic", iv, [[one(r, [ty], EDGE) for _ in range(38)]]))
    vf.explore(ctx, "Atomics", exe, sc, consts(4), "atomics on one thread", maxpre=0, maxruns=1, first=first)
    # several threads
    sc = []
    for ty in "ius":
        for fs in itertools.combinations_with_replacement(FS, 2):
            sc.append(("atomic", 5, [[(ty + f, [5, 7], "")] * 2 for f in fs]))
        sc.append(("atomic", 0, [[(ty + "add", [1, 0], "")] * 2] * 4))
        sc.append(("atomic", 0, [[(ty + "cas", [0, k], ""), (ty + "cas", [k, 0], "")] for k in (1, 2, 3)]))
    sc += [("atomic", 0, [[("pcas", [0, k], ""), ("pcas", [k, 0], "")] for k in range(1, n)]) for n in (3, 4)]
    for n, k in ((2, 3), (3, 2), (3, 3), (4, 2)):
        for _ in range(8 if ctx.quick else 60):
            tys = r.choice(["i", "u", "s", "p", "ius"]); vals = r.choice([[0, 1, 2], [0, 1, -1], EDGE])
            sc.append(("atomic", r.choice([0, 1, -1]), [[one(r, tys, vals) for _ in range(k)] for _ in range(n)]))
    pre, runs = (3, 700) if ctx.quick else (5, 20000)
    vf.explore(ctx, "Atomics", exe, sc, consts(4), "atomics", maxpre=pre if pre < 4 else 4, maxruns=runs, first=first)
    ctx.assumptions.append("schedules are sequentially consistent interleavings at the granularity of conflicting accesses")
