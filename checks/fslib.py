"""Scratch directories and random trees for the file system checks."""
import itertools, os, shutil, tempfile

WRAP = ["-Wl,--wrap=" + x for x in ("mkdir", "rmdir", "unlink", "remove", "rename", "unlinkat")]

class scratch:
    """n scratch directories that the (unprivileged) drivers may write in"""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vf-fs.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        os.chmod(self.d, 0o755)
        self.n = 0
        return self
    def new(self):
        self.n += 1
        p = os.path.join(self.d, "s%d" % self.n)
        os.mkdir(p)
        return p
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

def paths(names, depth):
    return [list(p) for n in range(1, depth + 1) for p in itertools.product(names, repeat=n)]

def tla(p): return "<<%s>>" % ",".join('"%s"' % x for x in p)

def tree(r, names, depth, fill=.6, links=.25, modes=(0o755, 0o700, 0o777, 0o1777, 0o750), odd=0.0, target=None):
    """a list of [path, type, mode, target]; parents first"""
    out, dirs, every = [], [[]], paths(names, depth)
    for p in every:
        if p[:-1] not in dirs or r.random() > fill: continue
        x = r.random()
        if x < links: out.append([p, "link", 0, r.choice(target or (every + [[]]))])
        elif x < links + .25 or len(p) == depth and x < .8: out.append([p, r.choice(["file", "file", "file", "fifo"]), r.choice([0o644, 0o600, 0o400]), []])
        else:
            m = r.choice(modes)
            if r.random() < odd: m = r.choice([0o500, 0o555, 0o300])
            out.append([p, "dir", m, []]); dirs.append(p)
    return out

def resolve(fs, p, last=True, n=12):
    """fs: {tuple: [type, target]} -> ('at', path) | ('missing', path) | ('nowhere',) | ('loop',)"""
    cur, rest = (), list(p)
    while rest:
        if cur != () and fs[cur][0] != "dir": return ("nowhere",)
        q = cur + (rest[0],)
        if q not in fs: return ("missing", q) if len(rest) == 1 else ("nowhere",)
        if fs[q][0] == "link" and (len(rest) > 1 or last):
            if n == 0: return ("loop",)
            n -= 1; cur, rest = (), list(fs[q][1]) + rest[1:]
        else: cur, rest = q, rest[1:]
    return ("at", cur)
