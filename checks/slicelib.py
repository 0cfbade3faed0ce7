import random
import vf

CFG = ("SPECIFICATION Spec\nVIEW View\nACTION_CONSTRAINT Emit\nINVARIANTS InBounds Alive RefsPositive\n"
       "PROPERTIES FreedLast Others\n")
DATA = ["0102010203010201", "0201020302010203"]
DATA = [d + bytes(random.Random(d).choices(range(1, 256), k=40000)).hex() for d in DATA]
NULLS = '{"copyn","copyon","lcopyn","lcopyon","msln","mslon","slicen","sliceon","advn"}'
COPY = '{"copy","lcopy","copyo","lcopyo","copyf","lcopyf","copyof","lcopyof"}'
SLICE = '{"slice","sliceo","slicef","sliceof","adv","advf"}'

def data(size, n):
    return [[int(d[2 * i:2 * i + 2], 16) for i in range(size)] for d in DATA[:n]]

def tla(x):
    return "<<" + ", ".join(tla(y) for y in x) + ">>" if isinstance(x, list) else str(x)

def consts(ns, nm, size, nd, offs="{}", kinds="{}", maxh="<<1, {}>>", copy="{}", sl="{}", null="{}"):
    return {"NS": ns, "NM": nm, "Size": size, "Data": tla(data(size, nd)), "MCOffs": offs, "MCKinds": kinds, "MCMaxH": maxh,
            "MCCopyOps": copy, "MCSliceOps": sl, "MCNullOps": null}

def args(ns, nm, size, nd):
    return [str(ns), str(nm), str(size)] + [d[:2 * size] for d in DATA[:nd]]

def gen(r, ns, nm, size, length, nd=2, wild=.15):
    sl, mb, ops = {}, {}, []          # sl[i] = [len, kind, lt, m]; mb[m] = handles (0 = only slices)
    refs = lambda m: mb.get(m, 0) + sum(1 for x in sl.values() if x[3] == m)
    def settle():
        for m in list(mb):
            if refs(m) == 0: del mb[m]
    for _ in range(length):
        free = [i for i in range(1, ns + 1) if i not in sl]
        fm = [m for m in range(1, nm + 1) if m not in mb]
        hm = [m for m in mb if mb[m] > 0]
        x = r.random()
        def win(n):
            if r.random() < wild: return r.choice([-1, -2, -3, -4, -n - 1, n + 1, 0, n, r.randrange(n + 2)]), r.choice([-1, -2, -3, -4, -n - 1, n, n + 1, 1, 0])
            o = r.randrange(n + 1); return o, r.randrange(n - o + 1)
        valid = lambda o, l, n: o >= 0 and l >= 0 and o + l <= n
        if x < .12 and free:
            i = r.choice(free); k = r.choice(["static", "once"]); ops.append((k, [i, r.randrange(1, nd + 1)])); sl[i] = [size, k, 0, 0]
        elif x < .2 and fm:
            m = r.choice(fm); d = r.randrange(1, nd + 1); y = r.random()
            if y < .6: ops.append(("mnew", [m, r.choice([1, 1, 2]), d])); mb[m] = 1
            elif y < .8: ops.append(("mbuf", [m, d])); mb[m] = 1
            elif free: i = r.choice(free); ops.append(("bufslice", [i, m, d])); mb[m] = 0; sl[i] = [size, "m", 0, m]
        elif x < .25 and hm: m = r.choice(hm); ops.append(("mref", [m])); mb[m] += 1
        elif x < .35 and hm: m = r.choice(hm); ops.append(("munref", [m])); mb[m] -= 1; settle()
        elif x < .48 and hm and free:
            m = r.choice(hm); i = r.choice(free); o, l = win(size); op = r.choice(["msl", "msl", "mslo"])
            ll = (size - o if 0 <= o <= size else -1) if op == "mslo" else l
            ops.append((op, [i, m, o, 0 if op == "mslo" else l]))
            if valid(o, ll, size): sl[i] = [ll, "m", 0, m]
        elif x < .68 and sl and free:
            i, j = r.choice(free), r.choice(list(sl)); n = sl[j][0]; o, l = win(n)
            op = r.choice(["copy", "copy", "lcopy", "copyo", "lcopyo", "copyf", "lcopyf", "copyof", "lcopyof"])
            ll = (n - o if 0 <= o <= n else -1) if "o" in op[4:].replace("copy", "").replace("py", "") else l
            toend = op in ("copyo", "lcopyo", "copyof", "lcopyof")
            ll = (n - o if 0 <= o <= n else -1) if toend else l
            if op.endswith("f") and not valid(o, ll, n): continue
            ops.append((op, [i, j, o, 0 if toend else l]))
            if valid(o, ll, n):
                light = op.startswith("l")
                sl[i] = [ll, sl[j][1] if light else ("p" if sl[j][1] == "once" else sl[j][1]), j if light else 0, sl[j][3]]
                if not light and sl[j][1] == "once": sl[j][1] = "p"
        elif x < .8 and sl:
            i = r.choice(list(sl)); n = sl[i][0]; o, l = win(n); op = r.choice(["slice", "sliceo", "slicef", "sliceof", "adv", "advf"])
            if n > 2 and r.random() < .5: o, l = 0, n - r.randrange(2)
            toend = op not in ("slice", "slicef"); ll = (n - o if 0 <= o <= n else -1) if toend else l
            if op in ("slicef", "sliceof", "advf") and not valid(o, ll, n): continue
            ops.append((op, [i, o, 0 if toend else l]))
            if valid(o, ll, n): sl[i][0] = ll
        elif x < .92 and sl:
            c = [i for i in sl if all(s[2] != i for s in sl.values())]
            i = r.choice(c); ops.append(("finish", [i])); del sl[i]; settle()
        elif x < .98 and sl: ops.append(("eq", [r.choice(list(sl)), r.choice(list(sl))]))
        else:
            o = r.choice(["copyn", "copyon", "lcopyn", "lcopyon", "msln", "mslon", "slicen", "sliceon", "advn"])
            if o in ("slicen", "sliceon", "advn"): ops.append((o, [r.choice([0, 1, -1])]))
            elif free: ops.append((o, [r.choice(free), r.choice([0, 1, -1]), 0]))
    return ops
