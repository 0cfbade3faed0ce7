"""Shared machinery of the checks: building libcork's sources, running TLC,
replaying specification graphs into the real code and validating recorded
traces against the specifications.  See DESIGN.md."""
import concurrent.futures as cf
import itertools
import glob, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")

ASAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:handle_abort=0:symbolize=0:max_malloc_fill_size=4096:malloc_fill_byte=190",
    "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=0",
}


SCHED_WRAP = """memcpy memmove memset strlen memcmp vsnprintf pthread_create pthread_join pthread_setname_np sched_yield
usleep nanosleep pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_wait pthread_cond_signal
pthread_cond_broadcast pthread_once""".split()


COUNTER = itertools.count(1)


class Violation(Exception):
    pass


class CheckError(Exception):
    """The machinery itself failed (never reported as a violation)."""


class Ctx:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time()
        os.makedirs(BUILD, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="%s-" % prop, dir=BUILD)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "impl_operations_compared": 0, "samples": []}
        self.assumptions = []
        self.libs = {}
        self.known = load_known(prop)
        self.known_hit = set()
        self.rng = random.Random(seed * 1000003 + sum(map(ord, prop)))
        self.quick = tier != "thorough"

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def sample(self, x, n=6):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(x)

    def add(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, desc, replay, key=None):
        """Report a violation, unless its key is a listed known finding."""
        if key is not None and key in self.known:
            if key not in self.known_hit:
                self.known_hit.add(key)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[key]), flush=True)
            return
        d = os.path.join(BUILD, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d-%d.json" % (self.prop, self.seed, os.getpid()))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": desc, "replay": replay}, f, indent=1, default=str)
        print("what: " + desc[:3000], flush=True)
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        raise Violation(desc)

    def evidence(self, violations):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        if not self.cov["samples"]:
            self.cov["samples"] = ["(none: stopped before the first sample)"]
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    # ---------------------------------------------------------------- build
    def lib(self, variant="asan", cflags=(), defs=()):
        """Compile every C source of libcork from /repo's working tree."""
        key = variant
        if key in self.libs:
            return self.libs[key]
        base = variant.split("+")[0]
        flags = {"asan": ["-fsanitize=address", "-fno-omit-frame-pointer"],
                 "plain": [], "tsan": ["-fsanitize=thread"],
                 "sched": ["-fsanitize=thread", "--param", "tsan-distinguish-volatile=1"]}[base]
        flags = ["-g1", "-O1", "-std=gnu99", "-U_FORTIFY_SOURCE", "-ftrivial-auto-var-init=pattern"] + flags + list(cflags) + list(defs)
        out = self.path("lib-" + variant)
        inc = self.path("inc")
        make_version_header(inc)
        os.makedirs(out, exist_ok=True)
        srcs = sorted(glob.glob(REPO + "/src/libcork/**/*.c", recursive=True))
        if not srcs:
            raise CheckError("no sources found")
        includes = ["-I" + REPO + "/include", "-I" + inc]

        def one(s):
            o = os.path.join(out, os.path.relpath(s, REPO).replace("/", "_")[:-2] + ".o")
            run(["gcc", "-c", "-w", "-DCORK_API=CORK_LOCAL", *flags, *includes, s, "-o", o])
            return o
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, srcs))
        a = os.path.join(out, "libcork.a")
        run(["ar", "rcs", a] + objs)
        self.libs[key] = (a, flags, includes)
        return self.libs[key]

    def driver(self, src, variant="asan", extra=(), name=None, cflags=(), defs=(), ldflags=()):
        a, flags, includes = self.lib(variant, cflags, defs)
        exe = self.path((name or os.path.splitext(os.path.basename(src))[0]) + "-" + variant.replace("+", "_"))
        srcs = [os.path.join(HARNESS, s) for s in ([src] if isinstance(src, str) else src)]
        run(["gcc", "-w", "-DCORK_API=CORK_LOCAL", *flags, *includes, "-I" + HARNESS, *extra, *srcs, a,
             "-o", exe, "-lpthread", *ldflags])
        return exe

    def sched_driver(self, src, variant="sched", defs=()):
        """A driver whose threads run under the scheduler of harness/vsched.c:
        instrumented with -fsanitize=thread, linked against vsched.c instead of
        the ThreadSanitizer runtime."""
        a, flags, includes = self.lib(variant, defs=defs)
        name = os.path.splitext(src)[0]
        o1, o2, exe = self.path(name + "-" + variant + ".o"), self.path("vsched.o"), self.path(name + "-" + variant.replace("+", "_"))
        run(["gcc", "-c", "-w", "-DCORK_API=CORK_LOCAL", *flags, *includes, "-I" + HARNESS, os.path.join(HARNESS, src), "-o", o1])
        run(["gcc", "-c", "-w", "-g1", "-O1", "-std=gnu99", os.path.join(HARNESS, "vsched.c"), "-o", o2])
        run(["gcc", o1, o2, a, "-o", exe, *["-Wl,--wrap=" + f for f in SCHED_WRAP], "-lpthread"])
        return exe

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, workers=1, extra=(), env=None, timeout=600, heap="3g", jopts=()):
        """Run TLC on a module already present in specs/ or in self.dir."""
        md = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        for f in glob.glob(SPECS + "/*.tla"):
            shutil.copy(f, md)
        for f in glob.glob(self.path("*.tla")):
            shutil.copy(f, md)
        cfgp = os.path.join(md, "run.cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
        cmd = ["java", "-Xss64m", "-Xmx" + heap, gc, "-Djava.io.tmpdir=" + md, *jopts, "-cp", TLA, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", os.path.join(md, "states"), "-workers", str(workers), "-config", cfgp,
               *extra, os.path.join(md, module + ".tla")]
        outp = os.path.join(md, "out.txt")
        with open(outp, "wb") as fo:
            try:
                rc = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=md).returncode
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on %s" % module)
        with open(outp, "rb") as f:
            out = f.read().decode("utf-8", "replace")
        shutil.rmtree(os.path.join(md, "states"), ignore_errors=True)
        return rc, out

    def wrap(self, module, consts, suffix, template=None):
        """Write a module that EXTENDS `module` and defines its constants by
        arbitrary TLA+ expressions; returns (module name, cfg lines)."""
        name = "%s_%s%d" % (module, suffix, next(COUNTER))
        defs = "\n".join("vf_%s == %s" % kv for kv in consts.items())
        if template:
            with open(os.path.join(SPECS, template)) as f:
                t = f.read().replace("@MODULE@", module).replace("@NAME@", name).replace("@DEFS@", defs)
        else:
            t = "---- MODULE %s ----\nEXTENDS %s\n%s\n====\n" % (name, module, defs)
        with open(self.path(name + ".tla"), "w") as f:
            f.write(t)
        cfg = "".join("CONSTANT %s <- vf_%s\n" % (k, k) for k in consts)
        return name, cfg

    def model_check(self, module, cfg, consts={}, workers=8, extra=("-deadlock",), timeout=800, count=True, expect_ok=True):
        """Exhaustively check a configuration of the specification itself."""
        name, c = self.wrap(module, consts, "MC")
        rc, out = self.tlc(name, cfg + "\n" + c, workers=workers, extra=extra, timeout=timeout)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if rc != 0 or not m:
            if expect_ok:
                raise CheckError("specification %s fails its own check:\n%s" % (module, out[-3000:]))
            return out
        if count:
            self.add("transitions", int(m.group(1)))
            self.add("states", int(m.group(2)))
        return out

    def graph(self, module, cfg, consts={}, timeout=600, extra=("-deadlock",)):
        """Model-check a configuration exhaustively and return its complete
        transition graph (every edge, with action, arguments, result and
        observation), emitted by the module's Emit action constraint."""
        name, c = self.wrap(module, consts, "MC")
        rc, out = self.tlc(name, cfg + "\n" + c, workers=1, extra=extra, timeout=timeout)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if rc != 0 or not m:
            raise CheckError("specification %s fails its own check:\n%s" % (module, tail_clean(out)))
        edges, inits = [], set()
        for line in out.splitlines():
            if line.startswith('"E['):
                pre, op, a, r, s, post = json.loads(unq(line)[1:])
                edges.append((pre, op, a, r, s, post))
            elif line.startswith('"I['):
                inits.add(json.loads(unq(line)[1:])[0])
        self.add("states", int(m.group(2)))
        self.add("transitions", int(m.group(1)))
        if not edges:
            raise CheckError("no edges emitted by %s" % module)
        return edges

    # -------------------------------------------------- code -> specification
    def validate(self, module, events, consts={}, timeout=600, name="trace", extra_cfg=""):
        """Check a recorded sequence of events (list of dicts with op, a, r, s)
        against the specification.  Returns the number of accepted events."""
        tr = self.path("%s-%d.ndjson" % (name, next(COUNTER)))
        with open(tr, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        tmod, c = self.wrap(module, consts, "Trace", "TraceTemplate.txt")
        cfg = "SPECIFICATION TraceSpec\nPOSTCONDITION TracePost\nCHECK_DEADLOCK FALSE\n" + c + extra_cfg
        rc, out = self.tlc(tmod, cfg, workers=1, env={"TRACE": tr}, timeout=timeout)
        m = re.search(r"TRACE_LEN (\d+) DIAMETER (\d+)", out)
        if (rc != 0 or not m) and len(events) > 1 and re.search(r"Attempted to|Evaluating|evaluat|non-enumerable|outside.*domain|fingerprint", out):
            # an event of a form the specification cannot even compare with its own is not one it allows: find it
            lo, hi = 0, len(events)                      # the first lo events can be evaluated, the first hi cannot
            while hi - lo > 1:
                mid = (lo + hi) // 2
                try:
                    d = self.plain(module, events[:mid], consts, timeout, name, extra_cfg)
                except CheckError:
                    hi = mid
                    continue
                if d < mid:
                    return d
                lo = mid
            os.unlink(tr)
            return lo
        if rc != 0 or not m:
            raise CheckError("TLC failed on %s trace:\n%s" % (module, tail_clean(out)))
        n, d = int(m.group(1)), int(m.group(2)) - 1
        if n != len(events):
            raise CheckError("trace length mismatch")
        os.unlink(tr)
        return d

    def plain(self, module, events, *a):
        if len(events) < 2:
            return len(events)                           # (only the reset at the start)
        tr = self.path("prefix-%d.ndjson" % next(COUNTER))
        with open(tr, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        tmod, c = self.wrap(module, a[0], "Trace", "TraceTemplate.txt")
        rc, out = self.tlc(tmod, "SPECIFICATION TraceSpec\nPOSTCONDITION TracePost\nCHECK_DEADLOCK FALSE\n" + c + a[3], workers=1, env={"TRACE": tr}, timeout=a[1])
        m = re.search(r"TRACE_LEN (\d+) DIAMETER (\d+)", out)
        os.unlink(tr)
        if rc != 0 or not m:
            raise CheckError("TLC failed")
        return int(m.group(2)) - 1

    def explain(self, module, events, d, consts={}):
        """What the specification would have allowed at event d (0-based)."""
        tmod, c = self.wrap(module, consts, "Explain", "ExplainTemplate.txt")
        start = d
        while start > 0 and events[start].get("op") != "reset":
            start -= 1
        tr = self.path("explain.ndjson")
        with open(tr, "w") as f:
            for e in events[start:d + 1]:
                f.write(json.dumps(e) + "\n")
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n" + c
        try:
            rc, out = self.tlc(tmod, cfg, workers=1, env={"TRACE": tr}, timeout=120)
            return [unq(l)[1:] if l.startswith('"') else l for l in out.splitlines() if l.startswith('"X')][:4]
        except CheckError:
            return []


def tail_clean(out):
    return "\n".join([l[:400] for l in out.splitlines() if not l.startswith('"E[')][-60:])


def unq(line):
    line = line.rstrip("\n")
    body = line[1:-1]
    return body.replace('\\"', '"').replace("\\\\", "\\")


def load_known(prop):
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def make_version_header(inc):
    d = os.path.join(inc, "libcork", "config")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "version.h")
    src = os.path.join(REPO, "include/libcork/config/version.h.in")
    vals = {"VERSION_MAJOR": "1", "VERSION_MINOR": "2", "VERSION_PATCH": "3", "VERSION": "1.2.3",
            "GIT_SHA1": "abcdef", "libcork_VERSION": "1.2.3", "BASE_VERSION": "1.2.3"}
    t = open(src).read()
    t = re.sub(r"@([A-Za-z0-9_]+)@|\$\{([A-Za-z0-9_]+)\}", lambda m: vals.get(m.group(1) or m.group(2), "1"), t)
    open(p, "w").write(t)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-3000:]))
    return p.stdout.decode("utf-8", "replace")


# ----------------------------------------------------------------- drivers
def arg(x):
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return "x" + x.encode("latin-1").hex()
    if isinstance(x, (list, tuple)):
        return "%d" % len(x) + "".join(" " + arg(y) for y in x)
    raise ValueError(x)


def run_driver(exe, ops, args=(), timeout=90, env=None, cwd=None):
    """ops: list of (op, args).  Returns (list of observation dicts, error text or None)."""
    text = "".join("%s%s\n" % (op, "".join(" " + arg(x) for x in a)) for op, a in ops)
    e = dict(os.environ)
    e.update(ASAN_ENV)
    e.update(env or {})
    try:
        p = subprocess.run([exe, *args], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=e, cwd=cwd)
        rc, so, se = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as t:
        rc, so, se = "timeout", t.stdout or b"", t.stderr or b""
    lines = so.decode("latin-1").splitlines()
    res = []
    for l in lines:
        try:
            res.append(json.loads(l))
        except ValueError:
            break
    if rc != 0 or len(res) != len(ops):
        err = "driver ended with %s after %d of %d operations; stderr: %s" % (
            rc, len(res), len(ops), se.decode("latin-1")[-1500:])
        if "HARNESS-ERROR" in se.decode("latin-1"):
            raise CheckError(err)
        return res, err
    return res, None


def walks(edges, init, rng, max_len=60):
    """Cover every edge of the graph by walks that start in the initial state."""
    out = {}
    for i, e in enumerate(edges):
        out.setdefault(e[0], []).append(i)
    # shortest path tree from init
    parent = {init: None}
    order = [init]
    for u in order:
        for i in out.get(u, ()):
            v = edges[i][5]
            if v not in parent:
                parent[v] = i
                order.append(v)
    unreach = [i for i, e in enumerate(edges) if e[0] not in parent]
    if unreach:
        raise CheckError("unreachable edges in graph: %d of %d, e.g. from %s; initial %s" % (len(unreach), len(edges), edges[unreach[0]][0], init))
    todo = {u: [i for i in l] for u, l in out.items()}
    for l in todo.values():
        rng.shuffle(l)

    def path_to(u):
        p = []
        while parent[u] is not None:
            i = parent[u]
            p.append(i)
            u = edges[i][0]
        return p[::-1]
    res = []
    for u in order[::-1]:
        while todo.get(u):
            w = path_to(u)
            cur = u
            n0 = len(w)
            while todo.get(cur) and len(w) - n0 < max_len:
                i = todo[cur].pop()
                w.append(i)
                cur = edges[i][5]
            res.append(w)
    return res


def replay_graph(ctx, exe, edges, init=None, to_ops=None, args=(), what="", nondet=False, reset=("reset", []), max_len=60,
                 shards=8, timeout=90, env=None, key_of=None):
    """Drive the real code along walks that cover every transition of the
    specification's graph, comparing result and observation at every step."""
    # TLC with one worker searches breadth first: the first edge leaves the initial state
    ws = walks(edges, init or edges[0][0], ctx.rng, max_len)
    ctx.rng.shuffle(ws)
    ctx.add("graph_edges_replayed", len(edges))
    shards = max(1, min(shards, len(ws)))
    parts = [ws[i::shards] for i in range(shards)]

    def go(ip):
        ops, exp = [], []
        a = args(ip[0]) if callable(args) else args
        for w in ip[1]:
            ops.append(reset)
            exp.append(None)
            for i in w:
                ops.append((edges[i][1], edges[i][2]))
                exp.append(edges[i])
        res, err = run_driver(exe, ops, a, timeout=timeout, env=env)
        for j, (o, x) in enumerate(zip(res, exp)):
            if x is None:
                continue
            if o.get("r") != x[3] or o.get("s") != x[4]:
                return bad(ops, j, "specification requires r=%s s=%s, the code gave r=%s s=%s" % (
                    json.dumps(x[3]), json.dumps(x[4]), json.dumps(o.get("r")), json.dumps(o.get("s"))))
        if err:
            return bad(ops, len(res), err)
        return (len(ops), None)

    def bad(ops, j, msg):
        k = j
        while k > 0 and ops[k][0] != reset[0]:
            k -= 1
        seq = ops[k:j + 1]
        return (0, (seq, msg))
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(go, enumerate(parts)))
    for n, b in rs:
        if b:
            seq, msg = b
            # re-run the offending walk alone before reporting it
            res, err = run_driver(exe, seq, args(99) if callable(args) else args, timeout=timeout, env=env)
            ctx.violation("%s: after %s: %s" % (what, show(seq), msg),
                          {"ops": seq, "message": msg, "rerun": [res[-1:] if res else None, err], "driver": exe},
                          key=key_of(seq, msg) if key_of else None)
        ctx.add("impl_operations_compared", n)
    ctx.add("traces_validated_against_impl", len(ws))
    if ws:
        w = ws[len(ws) // 2]
        ctx.sample({"replayed_walk": [[edges[i][1], edges[i][2], edges[i][3]] for i in w[:12]]})
    return len(ws)


def show(seq):
    def brief(x):
        x = str(x)
        return x if len(x) < 120 else x[:60] + "..." + x[-40:]
    s = " ; ".join("%s(%s)" % (o, ",".join(map(brief, a))) for o, a in seq)
    return s if len(s) < 1500 else "... " + s[-1500:]


def record(exe, seqs, args=(), timeout=90, env=None, shards=8):
    """Run op sequences (each preceded by reset) and return event lists."""
    parts = [seqs[i::shards] for i in range(shards)]

    def go(ip):
        ops = []
        for s in ip[1]:
            ops.append(("reset", []))
            ops.extend(s)
        if not ops:
            return [], None, []
        res, err = run_driver(exe, ops, args(ip[0]) if callable(args) else args, timeout=timeout, env=env)
        ev = []
        for (op, a), o in zip(ops, res):
            e = {"op": op, "a": list(a)}
            e.update(o)
            ev.append(e)
        return ev, err, ops
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(go, enumerate(parts)))


def trace_check(ctx, module, exe, seqs, consts={}, args=(), what="", timeout=600, env=None, shards=4, key_of=None):
    """Record traces of the real code and validate them against the specification."""
    rs = record(exe, seqs, args, env=env, shards=shards)
    for ev, err, ops in rs:
        if err:
            j = len(ev)
            k = j
            k = min(k, len(ops) - 1)
            while k > 0 and ops[k][0] != "reset":
                k -= 1
            ctx.violation("%s: %s after %s" % (what, err, show(ops[k:j + 1])),
                          {"ops": ops[k:j + 1], "error": err})

    def val(i):
        ev = rs[i][0]
        if not ev:
            return i, 0
        return i, ctx.validate(module, ev, consts, name="t%d" % i, timeout=timeout)
    with cf.ThreadPoolExecutor(4) as ex:
        vs = list(ex.map(val, range(len(rs))))
    for i, d in vs:
        ev = rs[i][0]
        if d < len(ev):
            k = d
            while k > 0 and ev[k]["op"] != "reset":
                k -= 1
            seq = [(e["op"], e["a"]) for e in ev[k + 1:d + 1]]
            # confirm: record and validate the offending sequence again, alone
            r2 = record(exe, [seq], args, env=env, shards=1)[0]
            d2 = ctx.validate(module, r2[0], consts, name="re", timeout=timeout) if r2[0] else 0
            if d2 >= len(r2[0]) and not r2[1]:
                # perhaps it depends on what the process did before: run all of that again
                for _ in range(3):
                    o3 = rs[i][2][:d + 1]
                    res, err = run_driver(exe, o3, args(i) if callable(args) else args, timeout=timeout, env=env)
                    e3 = [dict({"op": op, "a": list(a)}, **o) for (op, a), o in zip(o3, res)]
                    if err or (e3 and ctx.validate(module, e3, consts, name="re", timeout=timeout) < len(e3)): break
                else:
                    raise CheckError("%s: rejection did not repeat: %s" % (what, show(seq)))
            exp = ctx.explain(module, ev, d, consts)
            ctx.violation("%s: the specification rejects %s of sequence %s; it allows %s" % (
                what, json.dumps(ev[d])[:600], show(seq), exp),
                {"ops": seq, "rejected_event": ev[d], "specification_allows": exp},
                key=key_of(seq, ev[d]) if key_of else None)
        ctx.add("impl_operations_compared", len(ev))
    ctx.add("traces_validated_against_impl", len(seqs))
    for ev, _, _ in rs[:1]:
        if ev:
            ctx.sample({"validated_trace_prefix": [{"op": e["op"], "a": e["a"], "r": e.get("r")} for e in ev[1:10]]})


def explore(ctx, module, exe, scenarios, consts, what, maxpre=2, maxruns=4000, first=lambda sc: [], shards=6, timeout=600):
    """Run each scenario (kind, initial value, threads; a thread is a list of
    (op, args, string)) under many schedules, and check every distinct history
    that results against the specification."""
    def line(sc):
        kind, iv, thr = sc[:3]
        x = [kind, maxpre, maxruns, ctx.seed, len(thr), iv]
        for t in thr:
            x.append(len(t))
            for o in t:
                x += [o[0], len(o[1]), *o[1], o[2] if len(o) > 2 else ""]
        return "explore" + "".join(" " + arg(v) for v in x) + "\n"

    def go(sc):
        p = subprocess.run([exe], input=line(sc).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        if p.returncode != 0:
            raise CheckError("%s driver: %s %s" % (what, p.returncode, p.stderr[-500:]))
        L = [json.loads(l) for l in p.stdout.decode().splitlines()]
        return L[:-1], L[-1]
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(go, scenarios))
    hist = []
    for sc, (runs, summ) in zip(scenarios, rs):
        ctx.add("schedules_run", summ["runs"]); ctx.add("distinct_histories", summ["distinct"])
        if summ["left"] > 0: ctx.add("scenarios_with_schedules_left")
        for h in runs:
            hist.append((sc, h["events"], "schedule (switch to thread at scheduling point) %s" % h["schedule"]))
    ctx.add("scenarios", len(scenarios))
    histories(ctx, module, hist, consts, what, redo=lambda sc: [x["events"] for x in go(sc)[0]], first=first, shards=shards, timeout=timeout)


def histories(ctx, module, hist, consts, what, redo=None, first=lambda sc: [], shards=6, timeout=600, key_of=None, repeat=3, redo_all=None):
    """Check recorded histories (scenario, events, note) against the specification."""
    shards = max(1, min(shards, len(hist)))

    def evs(sc, events):
        return [{"op": "reset", "a": [], "r": [], "s": []}] + [dict(e, s=e.get("s", [])) for e in first(sc)] + [dict(e, s=e.get("s", [])) for e in events]

    def rejected(hs):
        ev = [e for sc, x in hs for e in evs(sc, x)]
        return ctx.validate(module, ev, consts, name="xre", timeout=timeout) < len(ev)

    def repeats(sc, events):
        # the same scenario must be rejected again (the history itself need not be identical)
        for _ in range(repeat):
            again = redo(sc)
            if any(x == events for x in again) or (again and rejected([(sc, x) for x in again])): return True
        return False

    def val(hs):
        ev, own = [], []
        for i, x in enumerate(hs):
            for e in evs(x[0], x[1]):
                ev.append(e); own.append(i)
        d = ctx.validate(module, ev, consts, name="x", timeout=timeout) if ev else 0
        return (hs, ev, d, own[d] if d < len(ev) else None)
    with cf.ThreadPoolExecutor(4) as ex:
        vs = list(ex.map(val, [hist[i::shards] for i in range(shards)]))
    for hs, ev, d, at in vs:
        while at is not None:
            bad = hs[at]
            sc, events, note = bad
            one = evs(sc, events)
            d1 = ctx.validate(module, one, consts, name="xre")
            if d1 >= len(one):
                raise CheckError("rejection did not repeat")
            key = key_of(sc, one[d1]) if key_of else None
            if redo and key not in ctx.known and not repeats(sc, events):
                for sc2, ev2 in (redo_all() if redo_all else []):
                    if rejected([(sc2, ev2)]) and repeats(sc2, None):
                        break
                else:
                    raise CheckError("%s: the rejected history did not repeat: %s" % (what, json.dumps(one[max(0, d1 - 10):d1 + 1])))
            exp = ctx.explain(module, one, d1, consts)
            ctx.violation("%s: scenario %s %s: the specification rejects %s after %s; it allows %s" % (
                what, json.dumps(sc)[:800], note, json.dumps(one[d1])[:300], json.dumps(one[max(0, d1 - 12):d1])[:1200], exp),
                {"scenario": sc, "note": note, "events": events, "rejected": d1}, key=key)
            hs, ev, d, at = val(hs[at + 1:])       # a known finding: go on with the rest
        ctx.add("impl_operations_compared", len(ev))
    ctx.add("traces_validated_against_impl", len(hist))
    if hist:
        sc, events, note = hist[len(hist) // 2]
        ctx.sample({"scenario": sc, "note": note, "history": events[:12]})


def run_scenarios(exe, ops, args=(), shards=8, **kw):
    """Each operation of the driver runs one scenario and answers with its events."""
    parts = [ops[i::shards] for i in range(shards)]

    def go(ip):
        i, part = ip
        if not part: return []
        res, err = run_driver(exe, part, args(i) if callable(args) else args, **kw)
        out = [(list(o), r["events"], "") for o, r in zip(part, res)]
        if err:
            out.append((list(part[len(res)]) if len(res) < len(part) else ["end"], [{"op": "crash", "a": [err[:600]], "r": []}], err))
        return out
    with cf.ThreadPoolExecutor(8) as ex:
        return [x for l in ex.map(go, enumerate(parts)) for x in l]


def scenario_check(ctx, module, exe, ops, consts, what, args=(), shards=6, key_of=None, first=lambda sc: [], **kw):
    hist = run_scenarios(exe, ops, args, **kw)
    def redo(sc):
        if sc[0] == "end":                               # (all were answered, but the driver did not end well)
            return [x[1] for x in run_scenarios(exe, ops, args, **kw) if x[2]]
        r = [x[1] for x in run_scenarios(exe, [tuple(sc)] * 16, args, **kw)]
        if all(x[0]["op"] != "crash" for x in r if x) and any(x[2] and list(x[0]) == list(sc) for x in hist):
            # it ended the driver, but does not when it runs first: the ones before it matter
            r += [x[1] for x in run_scenarios(exe, ops, args, **kw) if x[2]]
        return r

    def redo_all():
        # nothing came of running the one scenario again: run all of them again, and look for a rejection that repeats
        h2 = run_scenarios(exe, ops, args, **kw)
        parts = [h2[i::16] for i in range(16)]
        with cf.ThreadPoolExecutor(4) as ex:
            bad = list(ex.map(lambda p: bool(p) and rejects(p), parts))
        return [(x[0], x[1]) for b, p in zip(bad, parts) if b for x in p][:60]

    def rejects(p):
        ev = [e for x in p for e in [{"op": "reset", "a": [], "r": [], "s": []}] + [dict(e, s=e.get("s", [])) for e in first(x[0])] + [dict(e, s=e.get("s", [])) for e in x[1]]]
        return ctx.validate(module, ev, consts, name="xall") < len(ev)
    ctx.add("scenarios", len(ops))
    histories(ctx, module, hist, consts, what, redo=redo, shards=shards, key_of=key_of, first=first, redo_all=redo_all)


def main(prop, fn, level="model_checking"):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed, level)
    code = 2
    try:
        fn(ctx)
        ctx.evidence(0)
        ctx.log("held on everything explored:", {k: v for k, v in ctx.cov.items() if k != "samples"})
        code = 0
    except Violation:
        ctx.evidence(1)
        code = 1
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e), flush=True)
        code = 2
    except Exception:
        import traceback
        traceback.print_exc(file=sys.stdout)
        print("CHECK-ERROR %s: internal error" % prop, flush=True)
        code = 2
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(ctx.dir, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)
