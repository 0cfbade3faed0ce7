"""C30: the standard paths follow the environment as the XDG specification says."""
import itertools
import vf

CFG = "SPECIFICATION Spec\nVIEW View\nINVARIANTS Precedence\nPROPERTIES Independent\n"
Q = ["home", "config", "data", "cache", "runtime"]
def C(s): return [ord(c) for c in s]

def run(ctx):
    r = ctx.rng
    exe = ctx.driver("drv_xdg.c")
    ctx.model_check("Xdg", CFG, {"MCValues": "{<<>>, << <<>> >>, << <<47,97>> >>}" if ctx.quick else "{<<>>, << <<>> >>, << <<47,97>> >>, << <<47,98,58,47,99>> >>}"})
    # every combination of unset, empty and set; the values differ from one to the next
    vals = ["/h", "/home/user", "/", "/home/me/", "/with space/x", "/a//b", "/" + "long" * 60]
    lists = ["/etc/one", "/one:/two", "/one:/two:/three", "/x/:/y", "/d:" + ":".join("/n%d" % i for i in range(20))]
    combos = list(itertools.product((0, 1, 2), repeat=7))
    r.shuffle(combos)
    def pick(i, k):
        if k == 0: return []
        if k == 1: return [[]]
        return [C(r.choice(lists + vals[:1] if i in (2, 4) else vals))]
    evs = []
    for c in combos * (1 if ctx.quick else 8):
        o = [("env", [[pick(i, k) for i, k in enumerate(c)]])]
        qs = Q[:]; r.shuffle(qs)
        o += [(q, []) for q in qs[:3 if ctx.quick else 5]]
        evs.append(o)
    # histories: single variables change between queries
    seqs = [[e for o in evs[i::32] for e in o] for i in range(32)]
    for _ in range(30 if ctx.quick else 300):
        s = []
        for _ in range(60):
            i = r.randrange(7)
            s.append(("set", [i + 1, pick(i, r.choice([0, 1, 2, 2]))]) if r.random() < .5 else (r.choice(Q), []))
        seqs.append(s)
    ctx.cov["environments"] = len(evs)
    vf.trace_check(ctx, "Xdg", exe, seqs, {"MCValues": "{}"}, what="standard paths", shards=8)
    ctx.assumptions.append("no relative or empty entries in the lists")
