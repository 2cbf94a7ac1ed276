"""P24: the dictionary lemmatizer.  Specification: spec/LemOps.tla (what a dictionary means, what the lemmatizer adds),
spec/LemModel.tla (compiling and asking as a machine, exhaustive), spec/LemTrace.tla (runs on documents)."""
import build as B
from c_lattice import Gen

LEM = "tools/lemmatizers/lamerlemma/"
def driver():
    return B.build("lem", "lem_driver.cpp", B.LATTICE + [LEM + f for f in ("lamerlemma.cpp", "dictionary.cpp", "utility_functions.cpp")] +
        ["tools/datastructures/psi_query/fsa_multi_store.cpp"] +
        ["common/" + x for x in """annotator.cpp annotator_factory.cpp language_dependent_annotator_factory.cpp processor.cpp
        processor_factory.cpp lattice_worker.cpp its_data.cpp configurator.cpp processor_file_fetcher.cpp
        lang_specific_processor_file_fetcher.cpp file_fetcher.cpp lemmatizer_output_iterator.cpp""".split()] +
        ["utf8case/" + x for x in """case_tables.cpp range_based_case_converter.cpp regular_contextual_case_converter.cpp simple_convert.cpp
        special_casing_converter.cpp string_case_converter_manager.cpp turkish_and_azeri_lower_contextual_case_converter.cpp
        turkish_and_azeri_upper_contextual_case_converter.cpp""".split()],
        ["utf8", "utf8case", LEM, "tools/datastructures/psi_query"],
        ["log4cpp", "pcrecpp", "boost_program_options", "boost_filesystem", "boost_system", "boost_iostreams", "z"])

ORD = sorted("+,-.:=_'!/()0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZąćęłńóśźżĄĆĘŁŃÓŚŹŻéÉабяАБЯ€")
LOW = [[c, c.lower()] for c in ORD if c.lower() != c]

class LemGen(Gen):
    """Documents with tokens, then runs of the lemmatizer with dictionaries about them."""
    def __init__(self, rng):
        super().__init__(rng, maxlen=4, minlen=1, loose=rng.random() < 0.2, sym=rng.random() < 0.4, chars=list("abAkotŁł "))
        self.words = [self.word() for _ in range(rng.choice([1, 2, 2, 3]))]
    def word(self):
        r = self.r
        k = r.random()
        if k < 0.08: return r.choice(["a", "б", "Я", "я"][:1] + ["ab", "k"]) * r.choice([32, 62, 63, 64, 65, 130, 140])
        n = r.choice([1, 2, 2, 3, 4, 6])
        return "".join(r.choice("aabkotłż'-") for _ in range(n))
    def up(self, w):
        r = self.r
        k = r.random()
        return (w if k < 0.45 else w[:1].upper() + w[1:] if k < 0.65 else w.upper() if k < 0.85 else
                "".join(r.choice([c, c.upper()]) for c in w))
    def span(self):
        p = self.pick_pair()
        while p is None or self.rank[p[0]] >= self.rank[p[1]]: p = self.pick_pair()
        return p
    def document(self):
        r = self.r
        for _ in range(r.randint(1, 4)):
            s, t = self.span()
            c = r.choice(["T", "T", "T", "T", "word", "word", "B", "X"])
            g = r.choice([["!x", "token"]] * 5 + [["token"], ["!y", "token"], ["!x", "form"], ["!x"]])
            n = sum(1 for o in self.ops if o["op"] == "add")
            q = [] if n == 0 or r.random() < 0.7 else [r.randint(0, 40)]
            x = self.up(r.choice(self.words)) if r.random() < 0.95 else ""
            self.ops.append(dict(op="add", s=s, t=t, c=c, x=x, a=[["k", "v"]] if r.random() < 0.1 else [], g=g, w=r.choice([0, 0, 1, -1]),
                                 rule=-1, h=-1, seq=q))
            if self.allow_loose and r.random() < 0.1: self.loose()
    def lemma(self, f):
        r = self.r
        k = r.random()
        if k < 0.2: w = f
        elif k < 0.4: w = f[:r.randint(0, len(f))] + self.word()
        elif k < 0.6: i = r.randint(0, len(f)); w = f[i:] + r.choice(["", "a", "ć"])
        elif k < 0.7: w = "naj" + f
        else: w = r.choice(self.words + ["być", "word"])
        return w + r.choice([""] * 5 + [":1", ":2", ":a:b"])
    def features(self, bare):
        r = self.r
        it = [r.choice(["k=v", "k=w", "m=k", "z=1", "case=nom", "m=a=b"]) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
        it += [r.choice(bare) for _ in range(r.choice([0, 1, 1, 1, 2] if it else [1, 1, 1, 2]))]
        r.shuffle(it)
        return ",".join(it)
    def lines(self):
        r = self.r
        out, have = [], []
        for _ in range(r.choice([0, 1, 2, 3, 4, 6, 8, 12])):
            f = self.up(r.choice(self.words)) if r.random() < 0.6 else r.choice(self.words)
            if r.random() < 0.12: f = r.choice([f + "a", f[:-1] or "q", "'" + f])
            if have and r.random() < 0.5: f, m = r.choice(have)[0], r.choice(have)[1] if r.random() < 0.5 else self.lemma(f)
            else: m = self.lemma(f)
            have.append((f, m))
            p = [f, m]
            if r.random() < 0.9:
                p.append(self.features(["subst", "adj", "word", "term", "pos=verb", "verb", "T", "ł"]))
                if r.random() < 0.8: p.append(self.features(["k", "m", "z", "case", "k=ł"]))
                if len(p) == 4 and r.random() < 0.05: p.append("more")
            out.append("".join((r.choice("\t\t\t ") if i else "") + x for i, x in enumerate(p)))
            if r.random() < 0.08: out.append(out[-1])
            if r.random() < 0.05: out.append("")
        if r.random() < 0.03: out.insert(r.randint(0, len(out)), "alone")
        return out
    def run(self, lines):
        r = self.r
        level = r.choice([3, 3, 3, 3, 2, 1, 0])
        ids = r.random() < 0.3
        args = ["--lang", "x"] + (["--level", str(level)] if level != 3 or r.random() < 0.5 else []) + (["--lexeme-ids"] if ids else [])
        op = dict(op="lemmatize", args=args, lines=lines, level=level, ids=ids, nl=r.random() < 0.7, bin=r.random() < 0.4,
                  twice=r.random() < 0.15, ord=ORD, low=LOW)
        op["in"] = dict(k="alt", a=[["!x", "token"]])
        self.ops.append(op)
    def episode(self):
        r = self.r
        self.document()
        lines = self.lines()
        for _ in range(r.choice([1, 1, 1, 2])):
            self.run(lines)
            if r.random() < 0.5: lines = self.lines()
        return self.ops

def p24(c):
    c.assumptions += ["words are well-formed UTF-8; the features in a dictionary are never empty texts"]
    exe = driver()
    c.model("LemModel", "LemModel_%s.cfg" % c.tier, coverage=False)
    c.model("LemModel", "LemModel_nolimit.cfg", coverage=False, expect_violation=["Answers"])
    scripts = c.exhaustive_scripts("LemModel", "LemModel_scripts.cfg")
    scripts = c.rng.sample(scripts, min(len(scripts), c.n(900, 12000)))
    for s in scripts:
        for o in s:
            if o["op"] == "lemmatize": o.update(ord=ORD, low=LOW)
    c.conform(exe, scripts, "LemTrace", env=dict(FACET="state"), chunks=7, kind="exhaustive dictionaries")
    eps = [LemGen(c.rng).episode() for _ in range(c.n(1200, 25000))]
    c.conform(exe, eps, "LemTrace", env=dict(FACET="state"), chunks=7, kind="documents")

CHECKS = {"P24": p24}
BUILDS = [driver]
