"""P09: documents written out by the iterating writer, as text and as JSON.  Specification: spec/IterOps.tla;
spec/IterModel.tla (exhaustive), spec/IterTrace.tla (validates recorded runs)."""
import build as B
from c_lattice import Gen

SRCS = B.LATTICE + ["formats/simple/simple_lattice_writer.cpp", "formats/simple/simple_lattice_writer_stream_output_iterator.cpp",
    "formats/json-simple/json_lattice_writer.cpp", "formats/json-simple/json_lattice_writer_output.cpp",
    "formats/json-simple/json_lattice_writer_output_iterator.cpp"] + ["common/" + f for f in """lattice_iter_writer.cpp
    lattice_writer_output_iterator.cpp aligning_writer_worker.cpp psi_quoter.cpp utt_like_quoter.cpp quoter.cpp processor.cpp
    processor_factory.cpp configurator.cpp""".split()]
def driver():
    return B.build("iter", "iter_driver.cpp", SRCS, ["utf8", "utf8case", "formats/simple", "formats/json-simple"],
                   ["log4cpp", "pcrecpp", "boost_program_options", "boost_filesystem", "boost_system"])

CHARS = ["a", "b", " ", " ", "\n", "\t", "ż", "€", "c", "\r", "\f", "\u00a0"]
LAYERS = ["t", "u", "f", "k", "g", "h"]
TEXTS = ["", "", "u", "w", 'q"', "b\\", "l\n2", "x|y", "a\tb", "\x01\x1f", "ł", "/", " "]

def quoted(s):
    return "".join({" ": "_", "\n": "\\n", "\t": "\\t", "\r": "\\r", "_": "\\_", "*": "\\*", "\\": "\\\\", "#": "\\#"}.get(c, c) for c in s)

class IterGen(Gen):
    def __init__(self, rng):
        super().__init__(rng, maxlen=7, minlen=1, loose=rng.random() < 0.3, sym=rng.random() < 0.25, chars=CHARS)
        self.cnt = 0
    def put(self, s, t, g, x=None):
        self.cnt += 1
        r = self.r
        a = []
        for n in ("k", "m", "q\"n"):
            if r.random() < 0.15: a.append([n, r.choice(["v", "7", "a\"b", "\n", "\\"])])
        if x is None: x = r.choice(TEXTS) if r.random() < 0.5 else "%d" % self.cnt
        self.ops.append(dict(op="add", s=s, t=t, c=r.choice(["T", "B", "c%d" % self.cnt, 'np"']), x=x, a=a, g=sorted(set(g)),
                             w=r.choice([0, 0, 1, -1]), rule=-1, h=-1, seq=[]))
    def tile(self, g, p_gap=0.0):
        r = self.r
        ps = self.points(); i = 0
        while i < len(ps) - 1:
            j = min(len(ps) - 1, i + r.choice([1, 1, 1, 2, 3]))
            if r.random() >= p_gap: self.put(ps[i], ps[j], g)
            i = j
    def span(self):
        p = self.pick_pair()
        while p is None or self.rank[p[0]] >= self.rank[p[1]]: p = self.pick_pair()
        return p
    def run_iter(self):
        r = self.r
        jobs = []
        if r.random() < 0.7: jobs.append(lambda: self.tile(["t"] + r.choice([[], [], ["u"]]), r.choice([0, 0, 0.2])))
        if r.random() < 0.5: jobs.append(lambda: self.tile(["g"], r.choice([0, 0, 0.3])))
        if r.random() < 0.3: jobs.append(lambda: self.tile(["h"], r.choice([0, 0.3])))
        if r.random() < 0.3: jobs.append(lambda: self.tile(["f"], 0.2))
        r.shuffle(jobs)
        for j in jobs: j()
        for _ in range(r.randint(0, 6)):
            k = r.random()
            if k < 0.1 and self.allow_loose: self.loose()
            else:
                s, t = self.span()
                self.put(s, t, r.sample(LAYERS, r.choice([1, 1, 2])) + (["discarded"] if r.random() < 0.1 else []))
        if r.random() < 0.3: self.discard()
        for _ in range(r.choice([1, 2, 3])): self.write()
        return self.ops
    def write(self):
        r = self.r
        basic = r.choice([[["t"]]] * 4 + [[["t"], ["u"]], [["t", "u"]], [["symbol"]], [["t"], ["symbol"]]])
        o = dict(op="write", linear=r.random() < 0.25, noalts=r.random() < 0.25, blank=r.random() < 0.3,
                 basic=dict(k="alt", a=basic), tags=";".join(",".join(a) for a in basic),
                 fb=r.choice([[], [], ["f"], ["f", "symbol"], ["k", "f"], ["symbol"], ["f", "t"]]),
                 sep=r.choice([",", "\n", " ", "ab", "|", "__"]), altsep=r.choice(["|", "//", " or ", "*", "\\"]),
                 args=r.random() < 0.4)
        groups = r.choice([[], [], ["g"], ["g"], ["h"], ["g", "h"], ["g", "h", "k"]])
        o["spec"] = [[g, r.choice(["/", "\n\n", "\n", ";", " ; ", "//"])] for g in sorted(groups)]
        common = [f for f, on in (("--linear", o["linear"]), ("--no-alts", o["noalts"]), ("--with-blank", o["blank"])) if on]
        common += ["--tags", o["tags"]]
        if o["fb"]: common += ["--fallback-tags"] + o["fb"]
        t = common + ["--sep", quoted(o["sep"]), "--alt-sep", quoted(o["altsep"])]
        if groups:
            flat = [p for p in o["spec"]]
            r.shuffle(flat)
            t += ["--spec"] + [x for p in flat for x in (p[0], quoted(p[1]))]
        o["targs"] = t
        o["jargs"] = common + (["--with-args"] if o["args"] else []) + (["--spec"] + sorted(groups) if groups else [])
        self.ops.append(o)

def p09(c):
    exe = driver()
    c.assumptions += ["categories are not empty", "JSON with at most one layer of groups",
                      "orders of opening and closing groups of different layers at one point are not prescribed"]
    c.model("IterModel", "IterModel_%s.cfg" % c.tier, coverage=False)
    scripts = c.exhaustive_scripts("IterModel", "IterModel_scripts.cfg")
    scripts = c.rng.sample(scripts, min(len(scripts), c.n(4000, 60000)))
    c.conform(exe, scripts, "IterTrace", env=dict(FACET="write"), chunks=7, kind="model")
    eps = [IterGen(c.rng).run_iter() for _ in range(c.n(2500, 40000))]
    c.conform(exe, eps, "IterTrace", env=dict(FACET="write"), chunks=7, kind="random")

CHECKS = {"P09": p09}
BUILDS = [driver]
