"""P01-P06: the annotation graph.  Specification: spec/LatticeOps.tla (the meaning of every
operation), spec/LatticeModel.tla (exhaustive model of the implementation's bookkeeping),
spec/LatticeTrace.tla (validates recorded executions)."""
import build as B

INCS = ["utf8", "utf8case"]
LIBS = ["log4cpp", "pcrecpp"]

def driver():
    return B.build("lattice", "lattice_driver.cpp", B.LATTICE, INCS, LIBS)

CHARS = ["a", "b", " ", "a", "b", "ż", "ź", "€", "₭", "𝔘", "\n", "c"]
TAGS = ["token", "form", "lemma", "parse", "!x", "!y", "splitter", "word", "symbol", "gobio"]
CATS = ["T", "B", "X", "np"]

def width(s):
    return len(s.encode())

class Gen:
    """A random history of one document.  Keeps the graph acyclic: every point has a position
    (rank) and annotations lead from a lower to a higher one."""
    def __init__(self, rng, maxlen=6, loose=True, tags=TAGS, cats=CATS, minlen=0, sym=None, chars=CHARS):
        self.r = rng
        self.tags, self.cats, self.allow_loose, self.chars = tags, cats, loose, chars
        n = rng.randint(minlen, maxlen)
        self.text = [rng.choice(chars) for _ in range(n)]
        self.sym = rng.random() < 0.8 if sym is None else sym
        self.nl = 0
        self.rank = {}
        self.ops = [dict(op="reset", text="".join(self.text), sym=self.sym)]
        self.known_loose = True
        self.labels = []
        self.rerank()

    def rerank(self):
        off = 0
        for c in self.text:
            self.rank[off] = float(off)
            off += width(c)
        self.rank[off] = float(off)

    def points(self):
        off, res = 0, [0]
        for c in self.text:
            off += width(c)
            res.append(off)
        return res

    def pick_pair(self):
        r = self.r
        pts = self.points()
        if self.allow_loose and self.known_loose and self.nl and r.random() < 0.35:
            pts = pts + [-k for k in range(1, self.nl + 1)] * 2
        if len(pts) < 2:
            return None
        if r.random() < 0.04:       # a request that must be refused
            a, b = r.choice(self.points()), r.choice(self.points())
            return max(a, b), min(a, b)
        for _ in range(20):
            a, b = r.sample(pts, 2) if len(set(pts)) > 1 else (pts[0], pts[0])
            if self.rank[a] < self.rank[b] and a != b:
                return a, b
        return None

    def some_tags(self, lo=0, hi=3, extra=()):
        r = self.r
        t = [x for x in r.sample(self.tags, min(len(self.tags), r.randint(lo, hi)))]
        return sorted(set(t) | set(extra))

    def mask(self):
        r = self.r
        k = r.random()
        if k < 0.12:
            return dict(k="any", a=[])
        if k < 0.16:
            return dict(k="none", a=[])
        n = 1 if r.random() < 0.6 else r.randint(1, 3)
        return dict(k="alt", a=[sorted(r.sample(self.tags, r.choice([1, 1, 1, 2, 2, 3]))) for _ in range(n)])

    def slice(self, s, t):
        off, res = 0, ""
        for c in self.text:
            if s <= off < t:
                res += c
            off += width(c)
        return res

    def label(self, s, t):
        r = self.r
        k = r.random()
        if k < 0.12 and s >= 0 and t >= 0 and s < t:
            i = self.points().index(s)
            if self.points()[i + 1] == t or r.random() < 0.3:
                ch = self.text[i]
                return "'" + ch, r.choice([ch, ch, "", "zz"]), r.choice([[], [], [], [["k", "v"]]]), True
        c = r.choice(self.cats)
        x = r.choice(["", "u", "w", self.slice(s, t) if s >= 0 and t >= 0 else "u"])
        a = []
        if r.random() < 0.3:
            for nme in sorted(r.sample(["k", "m", "z"], r.randint(1, 2))):
                a.append([nme, r.choice(["v", "1", "7", "x y", "nil"])])
        return c, x, a, False

    def add(self):
        r = self.r
        if self.labels and r.random() < 0.45:        # the same annotation once more, or nearly
            s, t, c, x, a, symlike = r.choice(self.labels)
            if r.random() < 0.25:
                x = r.choice(["", "u", x])
            if r.random() < 0.15:
                a = []
        else:
            p = self.pick_pair()
            if p is None:
                return
            s, t = p
            c, x, a, symlike = self.label(s, t)
        self.labels.append((s, t, c, x, a, symlike))
        g = self.some_tags(0, 3)
        if symlike and r.random() < 0.7:
            g = sorted(set(r.choice([["symbol"], ["symbol"], ["symbol", "token"], ["symbol", "!x"]])))
        w = r.choice([0, 0, 0, 1, 2, -1, 5, -3])
        rule = r.choice([-1, -1, 0, 1, 7])
        h = r.choice([-1, -1, -1, 0, 2])
        op = dict(op="add", s=s, t=t, c=c, x=x, a=a, g=g, w=w, rule=rule, h=h, seq=[])
        if symlike and r.random() < 0.6:
            op.update(w=0, rule=-1, h=-1)
        self.seq(op)
        self.ops.append(op)

    def seq(self, op):
        r = self.r
        k = r.random()
        if k < 0.45:
            return
        if k < 0.75:
            op["chain"] = [r.choice([0, 0, 0, 1, 2, 3]) for _ in range(r.randint(1, 8))]
        else:
            op["seq"] = [r.randint(0, 40) for _ in range(r.randint(1, 4))]

    def part(self):
        r = self.r
        op = dict(op="part", e=r.randint(0, 60), g=self.some_tags(0, 2), w=r.choice([0, 1, -1, 4]),
                  rule=r.choice([-1, 3]), h=r.choice([-1, 1]), seq=[])
        if r.random() < 0.6:
            op["seq"] = [r.randint(0, 40) for _ in range(r.randint(1, 3))]
        self.ops.append(op)

    def loose(self):
        if not self.allow_loose or self.nl > 3 or not self.known_loose:
            return
        self.nl += 1
        lo = self.r.uniform(0, max(1, self.points()[-1]))
        self.rank[-self.nl] = lo + 0.37
        self.ops.append(dict(op="loose"))

    def append(self):
        r = self.r
        new = [r.choice(self.chars) for _ in range(r.randint(0, 3))]
        self.text += new
        self.rerank()
        self.ops.append(dict(op="append", text="".join(new), sym=r.random() < 0.8))

    def symbols(self):
        a, b = sorted(self.r.choices(self.points(), k=2))
        self.ops.append(dict(op="symbols", s=a, t=b))

    def correction(self):
        r = self.r
        pts = self.points()
        k = r.random()
        txt = "".join(r.choice(["a", "b", "x", "ż", "ź", "₭", " "]) for _ in range(r.choice([0, 1, 1, 2, 2, 3])))
        if k < 0.35:
            s = r.choice(pts)
            self.ops.append(dict(op="cins", s=s, x=txt))
            self.nl += len(txt)
            for i in range(len(txt)):
                self.rank[-(self.nl - len(txt) + i + 1)] = s + 0.01 * (i + 1) / 10
        elif k < 0.6:
            s, t = sorted(r.choices(pts, k=2))
            self.ops.append(dict(op="cers", s=s, t=t))
        else:
            s, t = sorted(r.choices(pts, k=2))
            self.ops.append(dict(op="crep", s=s, t=t, x=txt))
        self.known_loose = False

    def vertex(self):
        pts = self.points() + [-k for k in range(1, self.nl + 1)] if self.known_loose else self.points()
        return self.r.choice(pts)

    def query(self):
        r = self.r
        m = self.mask()
        k = r.choice(["out", "out", "in", "in", "firstout", "firstin", "bysource", "bytarget"])
        op = dict(op=k, m=m)
        if k in ("out", "in", "firstout", "firstin"):
            op["v"] = self.vertex()
        self.ops.append(op)

    def prov(self):
        r = self.r
        k = r.choice(["path", "path", "pathskip", "parent", "children", "origin"])
        m = self.mask()
        if k in ("path", "pathskip"):
            self.ops.append(dict(op=k, v=self.vertex(), m=m))
        elif k == "origin":
            self.ops.append(dict(op="origin", e=r.randint(0, 60), tag=r.choice(self.tags)))
        else:
            self.ops.append(dict(op=k, e=r.randint(0, 60), m=m))

    def walk(self):
        r = self.r
        if r.random() < 0.6:
            self.ops.append(dict(op="vertices", skip=r.random() < 0.5))
        else:
            self.ops.append(dict(op=r.choice(["bysource", "bytarget"]), m=self.mask()))

    def count(self):
        a, b = self.r.choices(self.points(), k=2)
        self.ops.append(dict(op="count", s=a, t=b))

    def run(self, n, weights):
        names = list(weights)
        ws = [weights[k] for k in names]
        while len(self.ops) < n:
            getattr(self, self.r.choices(names, ws)[0])()
        return self.ops

W = {
    "P01": dict(add=10, part=1, loose=1.2, append=0.8, symbols=0.5, discard=0.6, count=0.6),
    "P02": dict(add=12, part=3, loose=0.8, append=0.3, symbols=0.5, discard=1.5),
    "P03": dict(add=5, part=1, loose=0.5, append=0.3, symbols=0.4, discard=0.7, query=9),
    "P04": dict(add=2, correction=5, append=0.3, symbols=0.2, discard=0.2),
    "P05": dict(add=6, part=1, loose=0.5, append=0.3, discard=0.3, prov=6),
    "P06": dict(add=6, part=0.3, loose=1.5, append=0.5, symbols=0.5, walk=4),
}
def _discard(self):
    self.ops.append(dict(op="discard", e=self.r.randint(0, 60)))
Gen.discard = _discard

FACET = {"P01": "state", "P02": "state", "P03": "query", "P04": "state", "P05": "prov", "P06": "walk"}

def episodes(c, pid, count, oplen, **kw):
    res = []
    for i in range(count):
        k = dict(kw)
        if pid == "P02":
            k.setdefault("tags", ["token", "form", "!x", "!y", "symbol"])
            k.setdefault("cats", ["T", "X"])
        if pid == "P03":
            k.setdefault("tags", ["token", "form", "!x", "symbol", "lemma"])
        if pid == "P04":
            k.setdefault("loose", False)
            k.setdefault("sym", True)
        if pid == "P05":
            k.setdefault("tags", ["token", "form", "lemma", "parse", "symbol", "!x"])
        res.append(Gen(c.rng, **k).run(oplen, W[pid]))
    return res

MASKS = [dict(k="any", a=[]), dict(k="alt", a=[["token"]]), dict(k="alt", a=[["symbol"], ["!x", "token"]]),
         dict(k="alt", a=[["!x"]]), dict(k="alt", a=[["discarded"], ["token", "symbol"]])]

def decorate(c, pid, script):
    """The questions of the property, asked at the end of a generated history (and, in a history
    that asks nothing itself, once before, so that indices exist while the history goes on)."""
    r = c.rng
    nl = sum(1 for o in script if o["op"] == "loose")
    pts = [0, 1, 2] + [-k for k in range(1, nl + 1)]
    res = list(script)
    if pid == "P03":
        m0 = r.choice(MASKS)
        res.insert(1, dict(op="out", v=r.choice([0, 1]), m=m0))
        res.insert(r.randint(2, len(res)), dict(op="in", v=r.choice([1, 2]), m=r.choice(MASKS)))
        for m in [m0] + r.sample(MASKS, 2):
            for v in pts:
                res.append(dict(op=r.choice(["out", "firstout"]), v=v, m=m))
                res.append(dict(op=r.choice(["in", "firstin"]), v=v, m=m))
        res.append(dict(op=r.choice(["bysource", "bytarget"]), m=m0))
    elif pid == "P05":
        for m in r.sample(MASKS, 2):
            res.append(dict(op="path", v=r.choice(pts), m=m))
            res.append(dict(op="pathskip", v=r.choice(pts), m=m))
            res.append(dict(op="parent", e=r.randint(0, 5), m=m))
            res.append(dict(op="children", e=r.randint(0, 5), m=m))
        res.append(dict(op="origin", e=r.randint(0, 5), tag=r.choice(["token", "symbol", "!x"])))
    elif pid == "P06":
        res += [dict(op="vertices", skip=False), dict(op="vertices", skip=True),
                dict(op=r.choice(["bysource", "bytarget"]), m=r.choice(MASKS))]
    return res

def lattice_check(pid):
    def f(c):
        exe = driver()
        env = dict(FACET=FACET[pid])
        c.assumptions += [
            "documents are driven through the public Lattice API; requests that make the annotations cyclic through extra points are excluded",
            "layer masks are any, none, or alternatives of non-empty conjunctions"]
        corr = pid == "P04"
        c.model("LatticeModel", "Lattice%s_%s.cfg" % ("Corr" if corr else "Model", c.tier), coverage=False)
        # every short history of the model
        scripts = c.exhaustive_scripts("LatticeModel", "LatticeCorrScripts.cfg" if corr else "LatticeScripts.cfg")
        if c.quick() or corr:
            scripts = c.rng.sample(scripts, min(len(scripts), c.n(3000, 60000)))
        c.conform(exe, [decorate(c, pid, s) for s in scripts], "LatticeTrace", env=env, chunks=7, kind="model")
        if not corr:
            # longer histories of the model, by simulation
            sim = c.behaviours("LatticeModel", "LatticeSim.cfg", c.n(40, 400), 7)
            sim = c.rng.sample(sim, min(len(sim), c.n(1500, 20000)))
            c.conform(exe, [decorate(c, pid, s) for s in sim], "LatticeTrace", env=env, chunks=7, kind="sim")
        # long random histories of documents with multi-byte text
        eps = episodes(c, pid, c.n(300, 6000), 26, maxlen=6)
        eps += episodes(c, pid, c.n(30, 600), 14, minlen=60, maxlen=75, chars=["a", "b", " ", "ż"])
        eps += episodes(c, pid, c.n(30, 600), 60, maxlen=4)
        c.conform(exe, eps, "LatticeTrace", env=env, chunks=7, kind="random")
    return f

CHECKS = {p: lattice_check(p) for p in W}
BUILDS = [driver]
