"""P07: tokenizer and segmenter.  Specification: spec/CutOps.tla (pieces of a text), spec/CutModel.tla (the cutter as a
machine, exhaustive), spec/CutTrace.tla (validates recorded runs)."""
import build as B

SRCS = B.LATTICE + ["tools/tokenizers/tp/tp_token_cutter.cpp", "tools/tokenizers/tp/tp_basic_tokenizer_rule_set.cpp",
    "tools/tokenizers/tp/tp_tokenizer.cpp", "tools/segmenters/srx/srx_rules.cpp", "tools/segmenters/srx/srx_segmenter.cpp"]
def driver():
    return B.build("cut", "cut_driver.cpp", SRCS, ["utf8", "utf8case", "tools/tokenizers/tp", "tools/segmenters/srx"],
                   ["log4cpp", "pcrecpp", "boost_program_options", "boost_filesystem", "boost_system"])

CH = ["a", "b", " ", ".", "ł", "€", "𝄞", "(", "?", "c"]
ITEM = lambda cls, neg=False, rep="1": dict(cls=list(cls), neg=neg, rep=rep)

# ---- abstract patterns as text
def item_txt(it, r, rgx):
    if "ref" in it: return it["ref"]
    cls, rep = it["cls"], {"1": ""}.get(it["rep"], it["rep"])
    blank = "\\ " if rgx else " "
    if len(cls) == 1 and not it["neg"] and r.random() < 0.5 and (rgx or cls[0] != " ") and cls[0] != "B":
        c = cls[0]
        s = blank if c == " " else "\\" + c if c in ".(?@#" else c
    else:
        s = "[" + ("^" if it["neg"] else "") + "".join(
            blank if c == " " else "\\" + c if c in "@#" or (c in ".(?" and r.random() < 0.3) else c for c in cls) + "]"
    return s + rep
def pat_txt(re, r, rgx):
    return "|".join((" " if rgx and r.random() < 0.1 else "").join(item_txt(i, r, rgx) for i in b) for b in re)
def esc(s): return s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")

def rgx_txt(els, r, main=True):
    out = []
    n = 0
    for e in els:
        if r.random() < 0.1: out.append("# a comment [x]+\n")
        k = e["k"]
        if k == "rule":
            n += 1
            sp = r.choice(["", " ", "\n   "])
            out.append("@rule r%s%d/%s :=%s%s\n" % ("m" if main else "i", n, e["c"], sp or " ", pat_txt(e["re"], r, True)))
        elif k == "def": out.append("@def %s %s\n" % (e["name"], pat_txt([e["re"]], r, True)))
        elif k in ("ifdef", "ifndef"): out.append("@%s %s\n" % (k, e["name"]))
        elif k == "include": out.append(r.choice(['@include "%s"\n', "@include %s\n"]) % e["name"])
        else: out.append("@%s\n" % k)
        if r.random() < 0.3: out.append("\n")
    if main: out.append("@rule main_regex/main_regex := .\n")
    return "".join(out)

def srx_txt(maps, groups, cascade, r):
    one = r.random() < 0.4
    m = "".join(("<maprule maprulename=\"m%d\">%s</maprule>" if one else "%.0s%s") %
                (i, '<languagemap languagepattern="%s" languagerulename="%s"/>' % (x["p"], x["name"])) for i, x in enumerate(maps))
    g = "".join('<languagerule languagerulename="%s">%s</languagerule>' % (x["name"], "".join(
        '<rule break="%s"><beforebreak>%s</beforebreak><afterbreak>%s</afterbreak></rule>' %
        ("yes" if u["brk"] else "no", esc(pat_txt(u["bef"], r, False)), esc(pat_txt(u["aft"], r, False)))
        for u in x["rules"])) for x in groups)
    return ('<?xml version="1.0" encoding="utf-8"?>\n<srx version="%s"><header cascade="%s" segmentsubflows="yes"/><body>'
            '<languagerules>%s</languagerules><maprules>%s</maprules></body></srx>\n') % (
            "1.0" if one else "2.0", "yes" if cascade else "no", g, m)

class CutGen:
    def __init__(self, r):
        self.r = r
        self.ch = r.sample(CH, r.choice([3, 4, 5, 7]))
        if r.random() < 0.7 and "a" not in self.ch: self.ch.append("a")
    def text(self, lo=0, hi=12):
        return [self.r.choice(self.ch) for _ in range(self.r.randint(lo, hi))]
    def limits(self):
        r = self.r
        return r.choice([(0, 0)] * 4 + [(r.randint(1, 9), 0), (0, r.randint(1, 9)), (r.randint(1, 9), r.randint(1, 9)), (r.randint(4, 9), r.randint(1, 6))])
    def item(self, reps="111+?*"):
        r = self.r
        return ITEM(sorted(r.sample(self.ch, r.choice([1, 1, 1, 2]))), r.random() < 0.12, r.choice(reps))
    def branch(self, lo=1, hi=3, reps="111+?*"):
        return [self.item(reps) for _ in range(self.r.randint(lo, hi))]
    # tokenizer
    def elements(self, depth=0, inc=None, n=None):
        r = self.r
        els = []
        for _ in range(n if n is not None else r.randint(1, 5)):
            k = r.random()
            if k < 0.55 or depth > 2:
                re = [self.branch() for _ in range(r.choice([1, 1, 2]))]
                for b in re:
                    if r.random() < 0.3: b.insert(r.randint(0, len(b)), dict(ref=r.choice(["QA", "QB", "QC", "QAB"])))
                els.append(dict(k="rule", c=r.choice(["T", "B", "Ra", "Rb", "Rc", "X"]), re=re))
            elif k < 0.75:
                b = self.branch(1, 2)
                if r.random() < 0.25: b.insert(r.randint(0, len(b)), dict(ref=r.choice(["QA", "QB", "QC", "QAB"])))
                els.append(dict(k="def", name=r.choice(["QA", "QB", "QC", "QAB"]), re=b))
            elif k < 0.92:
                els.append(dict(k=r.choice(["ifdef", "ifndef"]), name=r.choice(["QA", "QB", "QC"])))
                els += self.elements(depth + 1, inc, r.randint(0, 2))
                if r.random() < 0.5:
                    els.append(dict(k="else")); els += self.elements(depth + 1, inc, r.randint(0, 2))
                els.append(dict(k="endif"))
            elif inc:
                els.append(dict(k="include", name=inc.pop()))
        return els
    def tok(self):
        r = self.r
        hard, soft = self.limits()
        simple = r.random() < 0.4
        if simple:
            files = []
            els = [dict(k="rule", c=r.choice(["T", "B", "Ra", "Rb"]), re=[self.branch() for _ in range(r.choice([1, 1, 2]))])
                   for _ in range(r.randint(1, 4))]
        else:
            names = r.choice([[], ["i1"], ["i1", "i2"]])
            files = [dict(name=n, els=self.elements()) for n in names]
            els = self.elements(inc=list(names), n=r.randint(2, 6))
        return tok_reset(r, els, files, hard, soft, r.choice(["pl", "en"]))
    # segmenter
    def srx_rule(self):
        r = self.r
        fixed = r.random() < 0.8
        reps = "1" if fixed else "111+"
        bef = [self.branch(0 if r.random() < 0.2 else 1, 2, reps) for _ in range(r.choice([1, 1, 1, 2]))]
        aft = [self.branch(0, 1, reps) for _ in range(r.choice([1, 1, 1, 2]))]
        if all(not b for b in bef): bef = [[]]
        return dict(brk=r.random() < 0.6, bef=bef, aft=aft)
    def srx(self):
        r = self.r
        names = ["Def", "Pl", "Any"]
        groups = [dict(name=n, rules=[self.srx_rule() for _ in range(r.randint(1, 3))]) for n in r.sample(names, r.randint(1, 3))]
        maps = []
        for _ in range(r.randint(1, 4)):
            p, ls = r.choice([("pl", ["pl"]), ("en", ["en"]), ("p.*", ["pl", "pt"]), (".*", ["pl", "en", "pt"]), ("(pl|en)", ["pl", "en"]), ("l", [])])
            maps.append(dict(p=p, langs=ls, name=r.choice([g["name"] for g in groups] + ["None"])))
        if r.random() < 0.7: maps.insert(r.randint(0, len(maps)), dict(p=".*", langs=["pl", "en", "pt"], name=groups[0]["name"]))
        hard, soft = self.limits()
        return srx_reset(r, maps, groups, r.random() < 0.3, r.random() < 0.2, hard, soft, r.choice(["pl", "pl", "en", "pt"]))
    def doc(self, lang):
        r = self.r
        t = self.text(1, 14)
        n = len(t)
        te = set()
        if r.random() < 0.4: te.add((0, n, lang))
        else:
            i = 0
            while i < n:
                j = min(n, i + r.choice([1, 2, 3, 5, 8]))
                if r.random() < 0.85: te.add((i, j, r.choice([lang, lang, lang, "de"])))
                i = j + r.choice([0, 0, 0, 1])
        if r.random() < 0.1:
            i = r.randrange(n); te.add((i, r.randint(i + 1, n), lang))
        te = [dict(s=s, t=e, g=g) for s, e, g in te]
        r.shuffle(te)
        return dict(op="lat", t=t, te=te, ins=[r.randrange(n), r.randint(1, 3)] if r.random() < 0.12 else [])
    def run(self):
        r = self.r
        head = self.tok() if r.random() < 0.5 else self.srx()
        ops = [head]
        safe = head["hard"] == 0 or head["hard"] >= 4
        for _ in range(r.randint(1, 3)):
            if head["kind"] == "tok" and r.random() < 0.6:
                ops.append(dict(op="cut", t=self.text(), how=r.choice([0, 1, 2]), reset=not safe or r.random() < 0.5))
            else: ops.append(self.doc(head["lang"]))
        return ops

def tok_reset(r, els, files, hard, soft, lang):
    return dict(op="reset", kind="tok", lang=lang, hard=hard, soft=soft, els=els,
                files=[dict(f, text=rgx_txt(f["els"], r, False)) for f in files], text=rgx_txt(els, r))
def srx_reset(r, maps, groups, cascade, force, hard, soft, lang):
    return dict(op="reset", kind="srx", lang=lang, hard=hard, soft=soft, maps=maps, groups=groups, cascade=cascade, force=force,
                text=srx_txt(maps, groups, cascade, r))

def from_model(s, r):
    """One state of the model as an episode."""
    t = s["t"]
    lat = dict(op="lat", t=t, ins=[], te=[dict(s=0, t=len(t), g="pl")])
    if s["kind"] == "tok":
        els = [dict(k="rule", c=x["c"], re=x["re"]) for x in reversed(s["rules"])]
        return [tok_reset(r, els, [], s["hard"], s["soft"], "pl"), dict(op="cut", t=t, how=r.choice([0, 1, 2]), reset=True), lat]
    return [srx_reset(r, [dict(p="pl", langs=["pl"], name="g")], [dict(name="g", rules=s["rules"])], False, False,
                      s["hard"], s["soft"], "pl"), lat]

def p07(c):
    exe = driver()
    c.assumptions += ["rules without anchors and look-around", "segmentation rules whose break positions grow with where they match",
                      "a match that spans an earlier sentence break may or may not count"]
    eps = []
    for k in ("tok", "srx"):
        c.model("CutModel", "CutModel_%s_%s.cfg" % (k, c.tier), coverage=False)
        sc = c.exhaustive_scripts("CutModel", "CutModel_%s_scripts.cfg" % k)
        eps += [from_model(s, c.rng) for s in c.rng.sample(sc, min(len(sc), c.n(2500, 30000)))]
    c.conform(exe, eps, "CutTrace", chunks=7, kind="model")
    c.conform(exe, [CutGen(c.rng).run() for _ in range(c.n(6000, 120000))], "CutTrace", chunks=7, kind="random")

CHECKS = {"P07": p07}
BUILDS = [driver]
