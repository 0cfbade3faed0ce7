"""Scenarios of C21 and C22: children with scripts, and what the parent does."""
import vf
CONSTS = {"MCKids": 1, "MCLen": 1, "MCCodes": "{0, 3}"}
LD = ["-Wl,--wrap=fork", "-Wl,--wrap=pipe", "-Wl,--wrap=waitpid", "-Wl,--wrap=read"]

def kid(script=(), mode=0, out=1, err=1, hc=1, code=0, fo=-1, fe=-1, eo=0, ee=0, want=None):
    if want is None: want = code if code >= 0 else -1
    if mode >= 2: want = -2
    return [mode, out, fo, eo, err, fe, ee, hc, code, want, [x for c in script for x in c]]

def flat(k): return k[:10] + [len(k[10])] + k[10]

def scen(kids, ops, group=1, tick=0, ff=0, fp=0):
    """ends with an abort and the release of everything"""
    o = list(ops)
    if not group: o += [(5, i + 1) for i in range(len(kids))]
    else: o.append((5, 0))
    return ("run", [tick, ff, fp, group, len(kids)] + [x for k in kids for x in flat(k)] + [len(o)] + [x for c in o for x in c])

START, DRAIN, WAIT, FIN, ABORT, SEND, END, GO, AWAIT, SLEEP, LOOP, RFAIL = range(1, 13)
def w(st, n): return (1, st, n)
def cl(st): return (2, st)
def rd(n): return (3, n)
RDALL = (4,)
def sig(k): return (5, k)
def wt(k): return (6, k)
LEAVE = (8,)
def nap(us): return (7, us)
SIZES = [1, 2, 4095, 4096, 4097, 8192, 30000, 65535, 65536, 65537, 70000, 131072, 200000]

def model(ctx):
    ctx.model_check("Subproc", "SPECIFICATION Spec\nVIEW View\nINVARIANTS Prefix StdinPrefix\nPROPERTIES EofIsLast WaitMeansDone FailMeansNoneRuns CellsFinal\n",
                    {"MCKids": 1 if ctx.quick else 2, "MCLen": 2 if ctx.quick else 1, "MCCodes": "{3}"})
