import random
import vf

INV = "SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT Emit\nINVARIANTS Safe Prompt Complete\nPROPERTY OwnOnly\n"
RELEASING = ("dec", "set", "pad", "unpad", "done")

def consts(n, k, e=1, collect="FALSE", hold="FALSE", t=1):
    return {"N": n, "K": k, "T": t, "MCExt": e, "MCHold": hold, "MCCollect": collect}

def model(ctx, n, k, e, collect, hold="FALSE", t=1):
    ctx.model_check("Gc", INV.replace("ACTION_CONSTRAINT Emit\n", ""), consts(n, k, e, collect, hold, t))

def graph_walks(ctx, n, k, e, limit=None, t=1):
    """Every transition of the specification's graph, as operation sequences."""
    edges = ctx.graph("Gc", INV, consts(n, k, e, t=t))
    if limit and len(edges) > limit: ctx.cov["graph_edges_sampled"] = limit
    ws = vf.walks(edges, edges[0][0], ctx.rng, 40)
    ctx.rng.shuffle(ws)
    out, c = [], 0
    for w in ws:
        if limit and c > limit: break
        out.append([(edges[i][1], edges[i][2][:-1] if edges[i][1] in RELEASING else edges[i][2]) for i in w]); c += len(w)
    return out

class Sim:
    """Keeps track of what the outside may do (never of what the code should do)."""
    def __init__(s, n, k): s.n, s.k, s.sl, s.ext, s.dead = n, k, {}, {}, set()
    def live(s):
        r = [o for o in s.ext if s.ext[o] > 0]; seen = set(r)
        for o in r:
            for t in s.sl[o]:
                if t and t not in seen: seen.add(t); r.append(t)
        return seen

def gen(r, n, k, length, pads, shape=.5, hidden=False):
    """hidden: references that only the free callback of their holder knows of; they go to objects of
    a lower level, so that none is part of a cycle (which nothing could ever free)."""
    s, ops = Sim(n, k), []
    level = lambda o: (o - 1) * 3 // n if hidden else 0
    below = lambda o, ts: [t for t in ts if t == 0 or level(t) <= level(o)]
    started = False
    for _ in range(length):
        live = s.live()
        free = [o for o in range(1, n + 1) if o not in s.sl]
        x = r.random()
        held = [o for o in live if s.ext[o] > 0]
        if x < .22 and free:
            o = r.choice(free); cs = [r.choice(below(o, list(live) + [0])) if r.random() < shape else 0 for _ in range(k)]
            ops.append(("new", [o, cs])); s.sl[o] = list(cs) + [0]; s.ext[o] = 1
        elif x < .27 and live: o = r.choice(list(live)); ops.append(("inc", [o])); s.ext[o] += 1
        elif x < .57 and held:
            o = r.choice(held); ops.append(("dec", [o])); s.ext[o] -= 1
        elif x < .82 and live:
            o = r.choice(list(live)); t = r.choice(below(o, list(live) + [0])) if r.random() < .8 else 0; i = r.randrange(k)
            ops.append(("set", [o, i + 1, t])); s.sl[o][i] = t
        elif x < .86 and live:
            o = r.choice(list(live)); i = r.randrange(k)
            if s.sl[o][i]: t = s.sl[o][i]; ops.append(("take", [o, i + 1])); s.ext[t] += 1; s.sl[o][i] = 0
            elif below(o, held):
                t = r.choice(below(o, held)); s.sl[o][i] = t; s.ext[t] -= 1
                if s.live() == live: ops.append(("give", [o, i + 1, t]))
                else: s.sl[o][i] = 0; s.ext[t] += 1
        elif hidden and x < .9 and live:
            o = r.choice(list(live)); t = s.sl[o][k]
            if t and r.random() < .3: ops.append(("unhold", [o])); s.ext[t] += 1; s.sl[o][k] = 0
            elif not t and [t for t in held if level(t) < level(o)]:
                t = r.choice([t for t in held if level(t) < level(o)]); s.sl[o][k] = t; s.ext[t] -= 1
                if s.live() == live: ops.append(("hold", [o, t]))
                else: s.sl[o][k] = 0; s.ext[t] += 1
        elif x < .92: ops.append(("done", [1]))
        elif pads and x < .97: ops.append(("pad", [1, r.choice([1024 - r.randrange(0, 8), 1, 1024 - r.randrange(0, 4), 1025])]))
        elif pads and x < .98: ops.append(("unpad", [1]))
        elif x > .995: ops.append(("decnull", []))
        if ops and ops[-1][0] in ("done",):
            live = s.live()
            for o in [o for o in s.sl if o not in live]: del s.sl[o]; del s.ext[o]
        elif ops and ops[-1][0] in ("dec", "set"):       # objects surely freed by now may be made again
            while True:
                z = [o for o in s.sl if s.ext[o] == 0 and not any(o in c for c in s.sl.values())]
                if not z: break
                for o in z: del s.sl[o]; del s.ext[o]
    ops.append(("unpad", [1]))
    for o in list(s.ext):
        for _ in range(s.ext[o]): ops.append(("dec", [o]))
    ops.append(("done", [1]))
    return ops

def nested(r, n, k):
    """Let go of a possible root whose first children's free callbacks let go of more, with the
    list of possible roots about to be full: no collection may see the half-released object."""
    ops, x, kids = [], n, list(range(2, n - 1)); p, a = 1, n - 1
    ops += [("new", [x, [0] * k]), ("new", [a, [0] * k])]
    for c in kids:
        ops.append(("new", [c, [r.choice([0, a]) for _ in range(k)]]))
        if r.random() < .7:
            h = r.choice([x, x, a]); ops += [("inc", [h]), ("hold", [c, h])]
    cs = [r.choice(kids + [a]) for _ in range(k)]
    ops.append(("new", [p, cs]))
    for c in kids: ops.append(("dec", [c]))
    roots = len([c for c in kids if c in cs])
    if r.random() < .85: ops += [("inc", [p]), ("dec", [p])]; roots += 1
    ops.append(("pad", [1, 1023 - roots - r.choice([0, 0, 0, 1, 2, 3])]))
    if r.random() < .3: ops += [("inc", [a]), ("dec", [a])]
    ops += [("dec", [p]), ("unpad", [1]), ("dec", [x]), ("dec", [a]), ("done", [1])]
    return ops

def threads(r, n, k, seqs):
    """The histories of several threads (each made for n objects) taken in turns."""
    out, rest = [], [list(q) for q in seqs]
    def moved(t, op, a):
        d = t * n; f = lambda o: o + d if o else 0
        if op in ("pad", "unpad", "done"): return [t + 1] + list(a[1:])
        if op == "new": return [a[0] + d, [f(c) for c in a[1]]]
        if op in ("set", "give"): return [a[0] + d, a[1], f(a[2])]
        if op == "take": return [a[0] + d, a[1]]
        return [x + d for x in a]
    t = 0
    while any(rest):
        if r.random() < .4: t = r.randrange(len(rest))
        if not rest[t]: t = (t + 1) % len(rest); continue
        op, a = rest[t].pop(0); out.append((op, moved(t, op, a)))
    return out
