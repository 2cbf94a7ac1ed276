"""P13: the selector, the anti-selector and the joiner.  Specification: spec/ConvOps.tla over spec/LatticeOps.tla;
spec/ConvModel.tla (exhaustive), spec/ConvTrace.tla (validates recorded runs)."""
import build as B
from c_lattice import Gen, W

CONV = B.LATTICE + ["tools/converters/%s/%s.cpp" % (x, x) for x in ("selector", "antiselector", "joiner")] + [
    "common/" + f for f in """annotator.cpp annotator_factory.cpp language_dependent_annotator_factory.cpp processor.cpp
    processor_factory.cpp lattice_worker.cpp its_data.cpp configurator.cpp""".split()]
def driver():
    return B.build("conv", "conv_driver.cpp", CONV, ["utf8", "utf8case", "tools/converters/selector",
                   "tools/converters/antiselector", "tools/converters/joiner"],
                   ["log4cpp", "pcrecpp", "boost_program_options", "boost_filesystem", "boost_system"])

def m(*alts):
    return dict(k="alt", a=[list(a) for a in alts])
def mstr(mask):
    return ";".join(",".join(a) for a in mask["a"])
FEATS = ["P", "Q", "k=v", "k=w", "m=v", "T"]

class ConvGen(Gen):
    def __init__(self, rng, kind):
        loose = rng.random() < 0.3
        super().__init__(rng, maxlen=4, minlen=1, loose=loose, sym=rng.random() < 0.4)
        self.kind, self.conds, self.hist = kind, {}, []
        self.allpts = True

    def put(self, s, t, c, x, a, g, q=()):
        self.ops.append(dict(op="add", s=s, t=t, c=c, x=x, a=a, g=sorted(g), w=self.r.choice([0, 0, 0, 1, -1]),
                             rule=-1, h=-1, seq=list(q)))
    def span(self):
        p = self.pick_pair()
        while p is None or self.rank[p[0]] >= self.rank[p[1]]:
            p = self.pick_pair()
        return p
    def cond(self):
        r = self.r
        k = r.random()
        if k < 0.3: return None
        if k < 0.45: return "*"
        alts = [[r.choice(FEATS) for _ in range(r.choice([1, 1, 2]))] for _ in range(r.choice([1, 1, 2, 3]))]
        s = "|".join("&".join(a) for a in alts)
        self.conds[s] = alts
        return s
    def attrs(self, cond=False):
        r = self.r
        a = {}
        if cond:
            c = self.cond()
            if c is not None: a["condition"] = c
        for n in ("k", "m", "z"):
            if r.random() < 0.3: a[n] = r.choice(["v", "w", "7"])
        return [[n, a[n]] for n in sorted(a)]
    def out_tags(self, kind):
        r = self.r
        if kind == "joiner":
            return r.choice([["joined"], ["joined", "!y"], ["joined", "!x", "!y"], ["joined", "val"], ["joined", "!y", "val"]])
        return r.choice([["selected", "token"]] * 3 + [["selected"], ["selected", "!x"], ["selected", "token", "!y"], ["lemma", "selected"]])

    def run_selecting(self):
        r = self.r
        plane = r.choice([[], [], [], ["!x"]])
        if r.random() < 0.6:        # fall-back readings tile the text, in one or two ways
            for _ in range(r.choice([1, 1, 2])):
                ps = self.points(); i = 0
                while i < len(ps) - 1:
                    j = min(len(ps) - 1, i + r.choice([1, 1, 2, 3]))
                    self.tok(ps[i], ps[j], plane)
                    i = j
        for _ in range(r.randint(2, 9)):
            k = r.random()
            s, t = self.span()
            if self.hist and r.random() < 0.35: s, t = r.choice(self.hist)
            self.hist.append((s, t))
            if k < 0.15:
                self.tok(s, t, plane)
            elif k < 0.65:
                self.put(s, t, r.choice(["X", "Y", "P", "B"]), r.choice(["", "u", "w"]), self.attrs(True),
                         ["conditional"] + r.choice([[], [], ["form"]]) + r.choice([[], [], plane]))
            elif k < 0.92:
                self.put(s, t, r.choice(["P", "Q", "T"]), r.choice(["", "u"]), self.attrs(), r.choice([["form"], ["lemma"], ["form", "lemma"]]) + r.choice([[], plane]))
            elif self.allow_loose:
                self.loose()
        kinds = ["selector"] * 3 + ["antiselector"] * 2
        for _ in range(r.choice([1, 1, 2])):
            self.convert(r.choice(kinds))
    def tok(self, s, t, plane):
        r = self.r
        g = ["token"] + plane
        if s >= 0 and t >= 0 and r.random() < 0.2: g.append("morfologik")
        self.put(s, t, r.choice(["T", "T", "B"]), r.choice(["", "u", self.slice(s, t) if s >= 0 and t >= 0 else "u"]), [], g)
    def convert(self, kind):
        r = self.r
        g = sorted(self.out_tags(kind))
        inm = r.choice([m(["conditional"])] * 4 + [m(["conditional", "form"]), m(["conditional"], ["lemma"])])
        fb = r.choice([m(["token"])] * 4 + [m(["token"], ["symbol"]), m(["symbol"])])
        args = []
        if mstr(inm) != "conditional" or r.random() < 0.3: args += ["--in-tag", mstr(inm)]
        if mstr(fb) != "token" or r.random() < 0.3: args += ["--fallback-tag", mstr(fb)]
        if g != ["selected", "token"] or r.random() < 0.3: args += ["--out-tags", ",".join(g)]
        op = dict(op=kind, g=g, blank=r.random() < 0.4, again=False, fb=fb)
        op["in"] = inm
        if op["blank"]: args.append("--with-blank")
        if kind == "selector":
            op["test"] = r.choice([dict(k="any", a=[]), m(["form"]), m(["lemma"]), m(["form"], ["token"])])
            if op["test"]["k"] == "alt": args += ["--test-tag", mstr(op["test"])]
            op["cd"] = [[c, a] for c, a in self.conds.items()]
        op["args"] = args
        self.ops.append(op)
        layers = set(x for mk in (inm, fb, op.get("test", m())) for a in mk["a"] for x in a)
        if op.get("test", m())["k"] == "alt" and not (layers & set(g)) and "symbol" not in layers:
            self.ops.append(dict(op, again=True))
        elif r.random() < 0.2:
            self.ops.append(dict(op))

    def run_joining(self):
        """Readings over few places, made from one another; links name annotations of the listing."""
        r = self.r
        spans = [self.span() for _ in range(r.choice([1, 1, 2]))]
        k = r.randint(2, 12)
        for i in range(k):
            s, t = r.choice(spans)
            n = sum(1 for o in self.ops if o["op"] == "add")
            q = [] if n == 0 or r.random() < 0.15 else [r.randint(0, 40) for _ in range(r.choice([1, 1, 1, 2]))]
            g = r.choice([["token"], ["form"], ["form"], ["val"], ["val"], ["form", "lemma"], ["form", "val"], ["gt", "val"]])
            g = g + r.choice([["!x"], ["!x"], ["!x"], [], ["!y"]])
            self.put(s, t, r.choice(["F", "G", "V"]), r.choice(["", "u", "w"]), self.attrs(), g, q)
            if r.random() < 0.08: self.loose()
        for _ in range(r.choice([1, 1, 2])):
            left = r.choice([m(["form"])] * 3 + [m(["form", "lemma"]), m(["form"], ["token"])])
            right = r.choice([m(["val"])] * 3 + [m(["gt", "val"]), m(["val"], ["lemma"])])
            op = dict(op="joiner", g=sorted(self.out_tags("joiner")), ltext=r.random() < 0.6, lcat=r.random() < 0.6,
                      attrs=r.choice(["left", "right", "merge", "merge"]), outer=r.random() < 0.7, ext=r.random() < 0.35, again=False)
            op["left"] = m(*[a + ["!x"] for a in left["a"]])
            op["right"] = m(*[a + ["!x"] for a in right["a"]])
            args = ["--lang", "x", "--left-mask", mstr(left), "--right-mask", mstr(right), "--out-tags", ",".join(op["g"])]
            if not op["ltext"]: args.append("--take-right-text")
            if not op["lcat"]: args.append("--take-right-category")
            if op["attrs"] != "merge": args.append("--take-%s-attributes" % op["attrs"])
            if not op["outer"]: args.append("--no-outer-join")
            if op["ext"]: args.append("--extended-outer-join")
            op["args"] = args
            self.ops.append(op)
            if op["g"] == ["!y", "joined"] and r.random() < 0.5:
                self.ops.append(dict(op))

def p13(c):
    exe = driver()
    c.assumptions += ["the tags given to joined annotations do not put them into the left layer",
                      "conditions are '*' or alternatives of conjunctions of categories and attribute values"]
    for k in ("select", "anti", "join"):
        c.model("ConvModel", "ConvModel_%s_%s.cfg" % (k, c.tier), coverage=False)
        scripts = c.exhaustive_scripts("ConvModel", "ConvModel_%s_scripts.cfg" % k)
        scripts = c.rng.sample(scripts, min(len(scripts), c.n(1200, 30000)))
        c.conform(exe, scripts, "ConvTrace", env=dict(FACET="state"), chunks=7, kind=k)
    eps = []
    for i in range(c.n(2000, 30000)):
        g = ConvGen(c.rng, "s")
        (g.run_selecting if i % 5 < 3 else g.run_joining)()
        eps.append(g.ops)
    c.conform(exe, eps, "ConvTrace", env=dict(FACET="state"), chunks=7, kind="random")

CHECKS = {"P13": p13}
BUILDS = [driver]
