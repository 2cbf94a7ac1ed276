"""P20: lexica.  Specification: spec/LexOps.tla (what a lexicon means), spec/LexModel.tla (compiling and asking as a
machine, exhaustive), spec/LexTrace.tla (stores and lexica), spec/MapTrace.tla (annotators built on lexica)."""
import build as B
from c_lattice import Gen

LEXD = "tools/datastructures/lexica/"
LEXSRC = [LEXD + f for f in ("key_value_store.cpp", "perfect_hash_index.cpp", "murmur_hash3.cpp", "lexicon_base.cpp")]
def driver():
    return B.build("lex", "lex_driver.cpp", LEXSRC + ["common/utt_like_quoter.cpp", "common/quoter.cpp", "common/logging.cpp"],
                   ["utf8", "utf8case", LEXD], ["log4cpp", "cmph", "boost_filesystem", "boost_system"])

def map_driver():
    return B.build("map", "map_driver.cpp", B.LATTICE + LEXSRC + ["tools/lexica/mapper/mapper.cpp", "tools/lexica/bilexicon/bilexicon.cpp"] +
        ["common/" + x for x in """annotator.cpp annotator_factory.cpp language_dependent_annotator_factory.cpp
        bi_language_dependent_annotator_factory.cpp processor.cpp processor_factory.cpp lattice_worker.cpp its_data.cpp
        configurator.cpp processor_file_fetcher.cpp lang_specific_processor_file_fetcher.cpp
        bi_lang_specific_processor_file_fetcher.cpp file_fetcher.cpp utt_like_quoter.cpp quoter.cpp""".split()],
        ["utf8", "utf8case", LEXD, "tools/lexica/mapper", "tools/lexica/bilexicon"],
        ["log4cpp", "pcrecpp", "cmph", "boost_program_options", "boost_filesystem", "boost_system"])

def hx(s): return (s if isinstance(s, bytes) else s.encode()).hex()

class LexGen:
    def __init__(self, rng): self.r = rng
    # ---- texts of lexica
    def key(self):
        r = self.r
        if self.keys and r.random() < 0.5: return r.choice(self.keys)
        k = "".join(r.choice(["a", "b", "ł", "+", ",", "=", "_", "\\_", "\\n", "\\t", "\\\\", "x", "1", ";", "*", "\\*"]) for _ in range(r.choice([1, 1, 2, 3])))
        self.keys.append(k)
        return k
    def line(self):
        r = self.r
        k = r.random()
        if k < 0.06: return r.choice(["", " ", "\t", " \t ", "# a b", "  # x", "#"])
        if k < 0.08: return r.choice(["a", " b", "a # b c", "a \\q", "\\ x", "a \\", "a\t", "x y\\ z"])
        f = [self.key()]
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            f.append("".join(r.choice(["v", "w", "ź", ";", ",", "=", "_", "\\_", "\\\\", "+", "\\t", "\\n", "*", "€"]) for _ in range(r.choice([1, 2, 3, 4]))))
        s = r.choice(["", "", "", " ", "\t", "  "])
        for i, x in enumerate(f): s += (r.choice([" ", "\t", "  ", " \t"]) if i else "") + x
        return s + r.choice(["", "", "", " ", " # c", "#x y"])
    def plain(self, k): # what is asked for: the key meant, and things near it
        return (k.replace("\\\\", "\0").replace("\\_", "\1").replace("_", " ").replace("\1", "_").replace("\\n", "\n")
                 .replace("\\t", "\t").replace("\\*", "*").replace("\0", "\\"))
    def ask(self):
        r = self.r
        ks = [self.plain(k) for k in self.keys]
        near = [k + "a" for k in ks[:3]] + [k[:-1] for k in ks[:4]] + ["", "q", "a b"]
        r.shuffle(near)
        return dict(op="ask", ks=ks + near[:4])
    def lexicon(self):
        r = self.r
        self.keys = []
        ops = []
        saved = []
        for _ in range(r.choice([2, 3, 4, 6])):
            k = r.random()
            if k < 0.6 or not ops:
                n = r.choice([0, 1, 2, 3, 5, 8, 8, 12, 25])
                ops.append(dict(op="text", lines=[self.line() for _ in range(n)], nl=r.random() < 0.6))
            elif k < 0.8:
                f = r.randint(0, 2); saved.append(f); ops.append(dict(op="savelex", f=f))
            elif saved:
                ops.append(dict(op="loadlex", f=r.choice(saved)))
            ops.append(self.ask())
        if saved: ops += [dict(op="loadlex", f=saved[-1]), self.ask()]
        return ops
    # ---- stores
    def raw(self, zero):
        r = self.r
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 8, 13, 16, 17] + ([200] if zero else [40]))
        pool = r.choice([b"ab", bytes(range(1, 256)), "aźł€".encode(), b"\xff\xfe\x80a", b"abcdefgh"])
        s = bytes(r.choice(pool) for _ in range(n))
        if zero and r.random() < 0.2: s += b"\0" + s[:3]
        return s
    def store(self, size=None):
        r = self.r
        n = size if size is not None else r.choice([0, 1, 2, 3, 4, 5, 7, 10, 19, 20, 21, 22, 40, 60])
        ks = []
        while len(ks) < n:
            k = self.raw(False)
            if ks and r.random() < 0.5: k = r.choice(ks)[:r.randint(0, 6)] + k
            if k not in ks: ks.append(k)
            elif len(ks) < n: ks.append(b"k%d" % len(ks)) if b"k%d" % len(ks) not in ks else None
        return ks, [[k.hex(), self.raw(True).hex()] for k in ks]
    def get(self, s, ks):
        r = self.r
        absent = [k for k in [x + b"a" for x in ks[:4]] + [x[:-1] for x in ks[:4]] + [self.raw(False) for _ in range(4)] + [b""]]
        q = (ks if len(ks) < 30 or r.random() < 0.3 else r.sample(ks, 25)) + absent
        return dict(op="get", s=s, ks=[k.hex() for k in q])
    def stores(self):
        r = self.r
        ops, ks = [], {}
        for s in range(r.choice([1, 2, 3])):
            k, es = self.store()
            ks[s] = k
            ops += [dict(op="build", s=s, es=es), self.get(s, k)]
        for _ in range(r.choice([1, 2])):
            ss = [r.choice(list(ks)) for _ in range(r.choice([1, 1, 2, 3]))]
            f, at = r.randint(0, 1), r.choice([3, 4, 10])
            ops += [dict(op="save", f=f, ss=ss), dict(op="load", f=f, s=at)]
            for i, s in enumerate(ss): ops.append(self.get(at + i, ks[s]))
        return ops
    # ---- vectors
    def vectors(self):
        r = self.r
        ops, have = [], []
        srt = r.random() < 0.3
        for _ in range(r.choice([2, 3, 5])):
            n = r.choice([0, 1, 2, 5, 18, 21, 45])
            vs = [(r.choice([b"a" * 70000, b"b" * 65535, b"c" * 65536]) if r.random() < 0.02 else self.raw(True)) for _ in range(n)]
            if srt: vs = sorted(set(vs))
            have += vs
            if srt and have != sorted(set(have)): srt = False
            q = [r.choice(have).hex() for _ in range(4)] if have else []
            ops.append(dict(op="texts", s=0, vs=[v.hex() for v in vs], q=q))
            if r.random() < 0.4:
                ops.append(dict(op="retexts", s=0, to=r.choice([0, 1]), q=q))
                if ops[-1]["to"] == 1: ops.append(dict(op="texts", s=1, vs=[], q=q))
        cur = 0
        for _ in range(r.choice([1, 2, 4])):
            vs = []
            for _ in range(r.choice([0, 1, 2, 19, 20, 21, 30, 60])):
                cur += r.choice([0, 0, 1, 2, 5, 254, 255, 256, 257, 510, 511, 65534, 65535, 65536, 65537, 100000, 3000000])
                vs.append(cur)
            ops.append(dict(op="numbers", s=0, vs=vs))
            if r.random() < 0.4: ops.append(dict(op="renumbers", s=0, to=r.choice([0, 0, 1])))
        return ops

def esc(s):     # a text as a field of a lexicon
    for a, b in (("\\", "\\\\"), ("_", "\\_"), (" ", "_"), ("\n", "\\n"), ("\t", "\\t")): s = s.replace(a, b)
    return s
class MapGen(Gen):
    """Documents, then runs of the mapper or the bilingual lexicon with lexica about their annotations."""
    def __init__(self, rng):
        super().__init__(rng, maxlen=3, minlen=1, loose=rng.random() < 0.3, sym=rng.random() < 0.4)
        self.have = []
    def span(self):
        p = self.pick_pair()
        while p is None or self.rank[p[0]] >= self.rank[p[1]]: p = self.pick_pair()
        return p
    def attrs(self):
        r = self.r
        return [[n, r.choice(["v", "w", "7", "v=w"])] for n in ("k", "m", "z") if r.random() < 0.3]
    def word(self): return self.r.choice(["", "u", "w", "u w", "kot+s", "u_", "é"])
    def document(self):
        r = self.r
        for _ in range(r.randint(2, 7)):
            s, t = self.span()
            c, x, a = r.choice(["X", "Y", "B", "s", "a,k=v"]), self.word(), self.attrs()
            g = r.choice([["form"], ["form"], ["form", "lemma"], ["lemma"], ["token"]]) + r.choice([[], [], ["!x"], ["!y"], ["!x", "!y"]])
            if r.random() < 0.4: g = sorted(set(g) | {"lexeme", "!x"})
            self.have.append((c, x, a))
            n = sum(1 for o in self.ops if o["op"] == "add")
            q = [] if n == 0 or r.random() < 0.7 else [r.randint(0, 40)]
            self.ops.append(dict(op="add", s=s, t=t, c=c, x=x, a=a, g=sorted(g), w=r.choice([0, 0, 1, -1]), rule=-1, h=-1, seq=q))
            if self.allow_loose and r.random() < 0.1: self.loose()
    def record(self, c, x, a):
        r = self.r
        val = lambda own: esc(own) if own and r.random() < 0.35 else r.choice(["u", "w", "n+q", "n+q+r", "o_p", "\\_", "X", "s", "a;b", "c+X;d+Y"])
        f = [val(x)]
        if r.random() < 0.6:
            f.append(val(c))
            if r.random() < 0.6: f.append(",".join(r.choice(["k=v", "k=w", "m", "z=7", "z", "k=v=w"]) for _ in range(r.choice([1, 1, 2, 3]))))
        return r.choice([" ", "\t", "  "]).join(f)
    def lines(self, key):
        r = self.r
        out = []
        for c, x, a in self.have:
            for _ in range(r.choice([0, 1, 1, 2])):
                k = esc(key(c, x, a))
                if not k: continue
                if r.random() < 0.1: k += "x"
                out.append(r.choice(["", "", "", " "]) + k + r.choice([" ", "\t"]) + self.record(c, x, a) + r.choice(["", "", " # c"]))
        r.shuffle(out)
        if r.random() < 0.03: out.append("bad")
        if r.random() < 0.1: out.insert(0, "# u X")
        return out
    def mapping(self, kind):
        r = self.r
        if kind == "bilexicon":
            op = dict(op="bilexicon", args=["--lang", "x", "--trg-lang", "y"], g=["!translation", "!y", "bilexicon", "lexeme"],
                      lines=self.lines(lambda c, x, a: x))
            op["in"] = dict(k="alt", a=[["!x", "lexeme"]])
        else:
            ct, cc, ca = r.choice([(1, 0, 0)] * 3 + [(0, 1, 0)] * 2 + [(0, 0, 1), (1, 1, 0), (1, 0, 1), (1, 1, 1), (0, 1, 1)])
            def key(c, x, a):
                return ",".join(([x] if ct else []) + ([c] if cc else []) + (["%s=%s" % (n, v) for n, v in a] if ca else []))
            intags = r.choice([["form"], ["form"], ["form", "lemma"], ["lemma"], ["form", "!x"], ["symbol"], ["token"]])
            out = r.choice([["mapped"], ["mapped"], ["mapped", "!y"], ["mapped", "!x"], ["mapped", "parse"], ["word"]])
            args = ["--lang", "x", "--in-tags", ",".join(intags), "--out-tags", ",".join(out)]
            op = dict(op="mapper", g=sorted(out), ct=bool(ct), cc=bool(cc), ca=bool(ca), lines=self.lines(key))
            op["in"] = dict(k="alt", a=[intags])
            if intags == ["symbol"]: op["lines"] += [r.choice(["a b", "b a", "'a 'b", "a 'a X", "b b"])]
            for f, n in (("ct", "text"), ("cc", "category"), ("ca", "attributes")):
                if op[f]: args.append("--consider-" + n)
            def taken(pre, opt, p):
                for k, n in (("t", "text"), ("c", "category"), ("a", "attributes")):
                    fl, fs = pre + "l" + k, {"t": "sx", "c": "sc", "a": "sa"}[k] if pre == "" else pre + "s" + k
                    z = r.random()
                    op[fl], op[fs] = z < p, []
                    if z < p: args.append("--" + opt + "clone-" + n)
                    elif z < 2 * p:
                        if k == "a":
                            fe = [r.choice(["k=n", "m=v", "z", "m", "k=a=b"]) for _ in range(r.choice([1, 2]))]
                            args.extend(["--" + opt + "set-attributes", ",".join(fe)])
                            op[fs] = [x.split("=", 1) if "=" in x else [x, "1"] for x in fe]
                        else:
                            v = r.choice(["u", "X", "set", "é"])
                            args.extend(["--" + opt + "set-" + n, v])
                            op[fs] = [v]
            taken("", "", 0.25)
            taken("u", "unknown-", r.choice([0, 0.25]))
            op["add"] = r.random() < 0.5
            if op["add"]: args.append("--add-attributes")
            op["args"] = args
        op["bin"] = r.random() < 0.3
        self.ops.append(op)
    def episode(self):
        r = self.r
        self.document()
        for _ in range(r.choice([1, 1, 2])): self.mapping(r.choice(["mapper", "mapper", "mapper", "bilexicon"]))
        return self.ops

def reset(ops): return [dict(op="reset")] + ops
def p20(c):
    exe = driver()
    c.assumptions += ["fingerprints of different keys differ (they are 32-bit hashes: a key never put in is answered with a record with probability 2^-32)",
                      "a store is given every key once, without NUL characters"]
    c.model("LexModel", "LexModel_%s.cfg" % c.tier, coverage=False)
    c.model("LexModel", "LexModel_runs.cfg", expect_violation=["Compiles"])
    c.model("LexModel", "LexModel_noprints.cfg", expect_violation=["Answers"])
    scripts = c.exhaustive_scripts("LexModel", "LexModel_scripts.cfg")
    eps = []
    for s in scripts:
        ks = ["a", "b", "a b", "a_b", "c", "q", "", "x"]
        eps.append(reset([dict(op="text", lines=s["lines"], nl=True), dict(op="ask", ks=ks), dict(op="savelex", f=1),
                          dict(op="loadlex", f=1), dict(op="ask", ks=ks)]))
    c.conform(exe, eps, "LexTrace", chunks=7, kind="exhaustive")
    g = LexGen(c.rng)
    eps = [reset(g.lexicon()) for _ in range(c.n(400, 8000))]
    eps += [reset(g.stores()) for _ in range(c.n(250, 6000))]
    eps += [reset(g.vectors()) for _ in range(c.n(120, 3000))]
    c.conform(exe, eps, "LexTrace", chunks=7, kind="random")
    c.model("MapModel", "MapModel_%s.cfg" % c.tier, coverage=False)
    scripts = c.exhaustive_scripts("MapModel", "MapModel_scripts.cfg")
    scripts = c.rng.sample(scripts, min(len(scripts), c.n(900, 12000)))
    c.conform(map_driver(), scripts, "MapTrace", env=dict(FACET="state"), chunks=7, kind="exhaustive documents")
    eps = [MapGen(c.rng).episode() for _ in range(c.n(900, 20000))]
    c.conform(map_driver(), eps, "MapTrace", env=dict(FACET="state"), chunks=7, kind="documents")

CHECKS = {"P20": p20}
BUILDS = [driver, map_driver]
