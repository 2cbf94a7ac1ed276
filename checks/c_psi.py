"""P08: documents written in the native format and read back.  Specification: spec/PsiOps.tla (what the rows mean),
spec/PsiModel.tla (writing and reading, exhaustive), spec/PsiTrace.tla (recorded runs)."""
import build as B
from c_lattice import Gen

def driver():
    return B.build("psi", "psi_driver.cpp", B.LATTICE + ["formats/psi/psi_writer/psi_lattice_writer.cpp",
        "formats/psi/psi_reader/psi_lattice_reader.cpp"] + ["common/" + f for f in """aligning_writer_worker.cpp psi_quoter.cpp
        utt_like_quoter.cpp quoter.cpp processor.cpp processor_factory.cpp configurator.cpp file_format_exception.cpp
        lattice_writer.cpp stream_lattice_reader.cpp""".split()
        if __import__("os").path.exists(B.REPO + "/common/" + f)],
        ["utf8", "utf8case", "formats/psi/psi_writer", "formats/psi/psi_reader"],
        ["log4cpp", "pcrecpp", "boost_program_options", "boost_filesystem", "boost_system"])

CHARS = list("ab _*\\#\n\t\r,[<]>()='$@-0") + ["ż", "€", "𝔘", "∅", "a", "b", "a", "b"]
LABEL = list("abcż_*\\# \n\t\r'()>=@$-01€")         # nothing with a meaning in the annotations column
def word(r, chars, lo, hi): return "".join(r.choice(chars) for _ in range(r.randint(lo, hi)))

class PsiGen(Gen):
    def __init__(self, rng):
        chars = CHARS if rng.random() < 0.6 else ["a", "b", " ", "ż"]
        super().__init__(rng, maxlen=rng.choice([3, 6, 12, 40]), minlen=0, loose=rng.random() < 0.5, sym=rng.random() < 0.75, chars=chars)
        self.tags = rng.sample(["token", "form", "lemma", "parse", "!x", "!y", "a_b", "a b", "x*", "q\\", "h#", "ż", "T'", "l\nm"], rng.randint(1, 5))
        if not any(t[0] != "!" for t in self.tags): self.tags.append("token")
        self.names = [word(rng, [c for c in LABEL if c != "="], 1, 3) for _ in range(3)] + ["k", "m"]
    def again(self):
        r = self.r
        s, t, c, x, a, _ = r.choice(self.labels)
        return s, t, c, x, a
    def radd(self):
        r = self.r
        if self.labels and r.random() < 0.3: s, t, c, x, a = self.again()
        else:
            p = self.pick_pair()
            if p is None: return
            s, t = p
            c = word(r, LABEL, 1, 3) if r.random() < 0.5 else r.choice(["T", "B", "np"])
            if r.random() < 0.06: c = "'" + c
            x = r.choice(["", "", "u", word(r, CHARS, 0, 4), word(r, CHARS, 0, 20)])
            a = []
            if r.random() < 0.4:
                for n in sorted(set(r.sample(self.names, r.randint(1, 3)))):
                    a.append([n, r.choice(["v", "7", "x y", word(r, LABEL + ["<", "="], 0, 4)])])
        self.labels.append((s, t, c, x, a, False))
        g = self.some_tags(1, 3)
        if not [z for z in g if z[0] != "!"] and r.random() < 0.8: g = sorted(set(g + [z for z in self.tags if z[0] != "!"][:1]))
        op = dict(op="radd", s=s, t=t, c=c, x=x, a=a, g=g, w=r.choice([0, 0, 0, 1000, -1000, 2500, 125, -7500, 1, -30, 123456, 700000]), seq=[],
                  roles=r.choice([[], [], [], ["", "head"], ["subj", "", "x y"], ["1"], ["a_b"]]))
        if r.random() < 0.75:
            k = r.random()
            op["chain"] = [r.choice([0, 0, 0, 1, 2, 3] if k < 0.7 else [1, 2, 3, 4, 5]) for _ in range(r.choice([1, 2, 3, 5, 40]))]
            op["snap"] = True
        self.ops.append(op)
    def bare(self):
        self.ops.append(dict(op="symbols", s=0, t=self.points()[-1]))
    def psi(self):
        self.ops.append(dict(op="psi", header=self.r.random() < 0.5))
    def episode(self):
        r = self.r
        n = r.choice([0, 1, 2, 4, 7, 12, 20])
        for _ in range(n):
            k = r.random()
            if k < 0.06 and self.allow_loose: self.loose()
            elif k < 0.1 and not self.ops[0]["sym"]: self.bare()
            elif k < 0.14: self.append()
            else: self.radd()
            if r.random() < 0.1: self.psi()
        self.psi()
        return self.ops

def p08(c):
    exe = driver()
    c.assumptions += ["scores have at most six significant digits; derivations are paths from where the annotation begins to where it ends, without circles",
                      "the tag of bare characters is on bare characters only, bare characters have no roles; rules and tree choices of derivations are not part of the format"]
    c.model("PsiModel", "PsiModel_%s.cfg" % c.tier, coverage=False)
    c.model("PsiModel", "PsiModel_nosym.cfg", coverage=False)
    c.model("PsiModel", "PsiModel_escaped.cfg", coverage=False, expect_violation=["Faithful"])
    c.model("PsiModel", "PsiModel_late.cfg", coverage=False, expect_violation=["Sense", "Faithful"])
    scripts = c.exhaustive_scripts("PsiModel", "PsiModel_scripts.cfg")
    scripts = c.rng.sample(scripts, min(len(scripts), c.n(3500, 40000)))
    for s in scripts: s[0]["text"] = s[0]["text"].replace("Z", "ż")
    c.conform(exe, scripts, "PsiTrace", chunks=7, kind="exhaustive documents")
    eps = [PsiGen(c.rng).episode() for _ in range(c.n(2500, 40000))]
    c.conform(exe, eps, "PsiTrace", chunks=7, kind="documents")

CHECKS = {"P08": p08}
BUILDS = [driver]
