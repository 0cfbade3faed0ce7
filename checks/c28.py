"""C28: path operations compute the documented path for every input."""
import vf
from fslib import *

CFG = "SPECIFICATION Spec\nVIEW View\nINVARIANTS Laws\nPROPERTIES Frame\n"
ALL = '{"new","newnull","free","set","setnull","append","appendnull","appendp","setbase","setdir","clone","base","dir","join","joinp","abs","setabs","cwd","setcwd","chdir"}'
def consts(n, alpha="{}", l=0, m=0, cwds="{}", ops="{}"):
    return {"NOBJ": n, "MCAlpha": alpha, "MCLen": l, "MCMax": m, "MCCwds": cwds, "MCOps": ops}

def gen(r, n):
    ops, live = [], {}
    def text():
        x = r.random()
        if x < .1: return []
        if x < .75: return [r.choice([47, 47, 97, 98, 46, 58]) for _ in range(r.randrange(1, 8))]
        if x < .9: return [r.choice([47, 46, 32, 1, 255, 127, 92, 37, 97]) for _ in range(r.randrange(1, 40))]
        t = [97 + r.randrange(26) for _ in range(r.choice([15, 16, 17, 31, 32, 33, 63, 255, 500, 900]))]
        for _ in range(r.randrange(4)): t[r.randrange(len(t))] = 47
        return t
    for _ in range(n):
        i, j, k = (r.randrange(1, 6) for _ in range(3))
        x = r.random()
        if x < .06:
            ops.append(("chdir", [r.randrange(6)])); continue
        if i not in live:
            y = r.random()
            if j in live and y < .7:
                op = r.choice(["clone", "base", "dir", "join", "joinp", "abs"])
                if op == "joinp":
                    if k not in live: continue
                    ops.append((op, [i, j, k])); m = live[j] + live[k] + 1
                elif op == "join":
                    t = text(); ops.append((op, [i, j, t])); m = live[j] + len(t) + 1
                else: ops.append((op, [i, j])); m = live[j] + (4000 if op == "abs" else 0)
                live[i] = m
            else:
                op = r.choice(["new", "new", "newnull", "cwd"])
                t = text()
                ops.append((op, [i] + ([t] if op == "new" else []))); live[i] = len(t) if op == "new" else 4000
        else:
            op = r.choice(["free", "set", "setnull", "append", "append", "append", "appendp", "setbase", "setdir", "setabs", "setcwd", "appendnull"])
            if live[i] > 6000 and op not in ("set", "setnull"): op = "free"
            if op == "appendp":
                if j == i or j not in live: continue
                ops.append((op, [i, j])); live[i] += live[j] + 1
            elif op in ("set", "append"):
                t = text(); ops.append((op, [i, t])); live[i] = (live[i] if op == "append" else 0) + len(t) + 1
            else:
                ops.append((op, [i]))
                if op == "free": del live[i]
                if op in ("setabs", "setcwd"): live[i] += 4000
    return ops

def mend(seq):
    """the current directory decides which calls make an object: leave out what does not fit"""
    have, gone, out, ab = set(), True, [], {}
    out.append(("chdir", [seq.pop(0)])); gone = out[0][1][0] == 3
    for op, a in seq:
        i = a[0]
        if op == "chdir": gone = i == 3
        elif op in ("new", "newnull", "clone", "base", "dir", "join", "joinp", "abs", "cwd"):
            if i in have or any(x not in have for x in ([a[1]] if op not in ("new", "newnull", "cwd") else []) + (a[2:] if op == "joinp" else [])): continue
            if op == "cwd" and gone: out.append((op, a)); continue
            if op == "abs" and gone: continue
            have.add(i)
        else:
            if i not in have or (op == "appendp" and a[1] not in have): continue
            if op == "setcwd" and gone: continue
            if op == "free": have.discard(i)
        out.append((op, a))
    return out

def run(ctx):
    r = ctx.rng
    exe = ctx.driver("drv_path.c", ldflags=WRAP)
    ctx.model_check("Paths", CFG, consts(2, "{47,97}", 3, 4 if ctx.quick else 6, "{<<0,<<47>>>>, <<5,<<47,117,115,114>>>>, <<3,<<>>>>}", ALL))
    with scratch() as sc:
        # every string over slash, a letter (and dot), with every operation and every other such string
        g = ctx.graph("Paths", CFG + "ACTION_CONSTRAINT Emit\n", consts(1, "{47,97}" if ctx.quick else "{46,47,97}", 3, 7 if ctx.quick else 6, "{}",
                      '{"new","newnull","free","set","setnull","append","appendnull","setbase","setdir"}'))
        vf.replay_graph(ctx, exe, g, args=lambda i: [sc.new(), "1"], what="paths")
        g = ctx.graph("Paths", CFG + "ACTION_CONSTRAINT Emit\n", consts(2, "{47,97}", 2, 4 if ctx.quick else 5, "{<<0,<<47>>>>, <<5,<<47,117,115,114>>>>, <<3,<<>>>>}", '{"new","free","appendp","clone","base","dir","join","abs","setabs","cwd","setcwd","chdir"}'))
        vf.replay_graph(ctx, exe, g, init=None, reset=("reset", []), args=lambda i: [sc.new(), "2"], what="paths")
        seqs = [mend([r.randrange(6)] + gen(r, 60)) for _ in range(80 if ctx.quick else 2500)]
        vf.trace_check(ctx, "Paths", exe, seqs, consts(5), args=lambda i: [sc.new(), "5"], what="paths")
    ctx.assumptions += ["a path is not appended to itself", "paths contain no NUL bytes", "cork_path_set_cwd is not used when there is no current directory"]
