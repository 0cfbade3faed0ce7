"""C24: an environment collection is a map from names to values."""
import vf

CFG = "SPECIFICATION Spec\nVIEW View\nINVARIANTS Dead\nPROPERTIES Frame Exact\n"
ALL = '{"new","clone","free","replace","add","printf","vprintf","remove","get","copy"}'
def q(l): return "<<%s>>" % ",".join('"%s"' % x for x in l)
def consts(ns, names, vals="{}", ops="{}"): return {"NS": ns, "NAMES": q(names), "MCVals": vals, "MCOps": ops}

def gen(r, ns, names, vals, n):
    env, live, ops = {w: {} for w in range(ns + 1)}, {0}, []
    for _ in range(n):
        x = r.random(); w = r.choice(sorted(live))
        if x < .12 and len(live) <= ns:
            w = r.choice([i for i in range(1, ns + 1) if i not in live])
            op = r.choice(["new", "clone"]); env[w] = dict(env[0]) if op == "clone" else {}; live.add(w)
            ops.append((op, [w]))
        elif x < .16 and w: ops.append(("free", [w])); live.discard(w); env[w] = {}
        elif x < .24 and w: ops.append(("replace", [w])); env[0] = dict(env[w])
        elif x < .65:
            op, m, v = r.choice(["add", "printf", "vprintf"]), r.choice(names), r.choice(vals)
            if v == "LONG": v = "v" * r.choice([100, 500, 1023, 1024, 1025, 4095, 5000])
            ops.append((op, [w, m, v])); env[w][m] = v
        elif x < .78: m = r.choice(names); ops.append(("remove", [w, m])); env[w].pop(m, 0)
        elif x < .84: ops.append(("get", [w, r.choice(names)]))
        elif env[w]:
            a, b = r.choice(sorted(env[w])), r.choice(names)
            op = r.choice(["copy", "double"]) if len(env[w][a]) < 6000 else "copy"
            ops.append((op, [w, a, b])); env[w][b] = env[w][a] * (2 if op == "double" else 1)
    return ops

def run(ctx):
    names = ["A", "AB"]
    ctx.model_check("Env", CFG, consts(2, names, '{"", "x", "yz"}' if not ctx.quick else '{"", "x"}', ALL))
    exe = ctx.driver("drv_env.c")
    edges = ctx.graph("Env", CFG + "ACTION_CONSTRAINT Emit\n", consts(2, names, '{"", "x"}', ALL))
    vf.replay_graph(ctx, exe, edges, args=["2"] + names, what="environment collection")
    r = ctx.rng
    names = ["A", "AB", "B", "PATH", "HOME", "a", "_", "LC_ALL", "X" * 40] + ["V%d" % i for i in range(12)]
    vals = ["", "x", "=", "a=b", "A", "%s%n", "/a:/b", " x y ", "LONG", "LONG"]
    seqs = [gen(r, ns, names[:k], vals, 120) for ns in (1, 2, 4) for k in (2, 3, 9, 21) for _ in range(3 if ctx.quick else 60)]
    vf.trace_check(ctx, "Env", exe, seqs, consts(4, names), args=["4"] + names, what="environment collection")
    # collections of many variables
    names = ["V%d" % i for i in range(300)]
    seqs = []
    for _ in range(1 if ctx.quick else 6):
        o = names[:]; r.shuffle(o); w = r.choice([0, 1]); ops = [("new", [1])]
        ops += [(r.choice(["add", "printf"]), [w, m, r.choice(["", "x", m])]) for m in o]
        ops += [("replace", [1]), ("clone", [2])] if w else [("clone", [2]), ("replace", [2])]
        r.shuffle(o)
        ops += [("remove", [r.choice([0, 2]), m]) for m in o[:60]] + [("replace", [2]), ("free", [1]), ("free", [2])]
        seqs.append(ops)
    vf.trace_check(ctx, "Env", exe, seqs, consts(2, names), args=["2"] + names, what="environment collection of many variables")
    ctx.assumptions.append("names given to the process environment are non-empty and contain no '='")
