"""P12: the chart parser.  Specification: spec/ParseOps.tla (what follows from the rules), spec/ParseModel.tla (the agenda
machine, any order), spec/ParseTrace.tla (validates recorded runs)."""
import os, subprocess
import build as B
G = "tools/parsers/gobio/"
SRCS = B.LATTICE + [G + x for x in ["gobio.cpp", "avmatrix/av_ai_converter.cpp", "chart/gobio_limit_checker.cpp",
    "registrar/number_master.cpp", "registrar/zvalue_master.cpp", "rules/compile_gruleexpression.cpp", "rules/grule_helpers.cpp",
    "translator/grparser.cpp", "translator/grules.cpp", "translator/prandseq.cpp", "parser/simple_cfg_combinator.cpp"]]
SUBS = ["accommodater", "avmatrix", "chart", "chooser", "helpers", "parser", "registrar", "rules", "translator", "transporter", "trees"]

def sources():
    gen = os.path.join(B.BUILD, "chart_gen")
    os.makedirs(gen, exist_ok=True)
    outs = []
    for tool, opt, src, dst in (("bison", "-p", "grparser.y", "grparser.bis.cpp"), ("flex", "-P", "lex.grlex.lpp", "lex.grlex.cpp")):
        out = os.path.join(gen, dst)
        subprocess.run([tool, opt, "grparser" if tool == "bison" else "grlex", "-o", out, os.path.join(B.REPO, G, "translator", src)],
                       check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        outs.append(out)
    return SRCS + outs

def driver():
    return B.build("chart", "chart_driver.cpp", sources(), ["utf8", "utf8case", "tools", "tools/parsers/gobio"] + [G + s for s in SUBS],
                   ["log4cpp", "pcrecpp", "boost_program_options", "boost_filesystem", "boost_system"], extra=["-fno-access-control"])

T = ["gobio", "parse-terminal"]
def leaf(s, t, c, g=T, a=(), x="", w=0):
    return dict(s=s, t=t, c=c, g=list(g), a=[list(i) for i in a], x=x, w=w)

# ---- the text of a grammar file
def el_txt(e):
    q = "?" if e["op"] else ""
    if e["k"] == "s": return e["c"] + ("*" if e["st"] else "") + q
    return "(" + " | ".join(" ".join(el_txt(x) for x in a) for a in e["alts"]) + ")" + q
PREC = dict(score=9, opt=9, str=9, ref=9, lhs=9, eq=5, ne=5, ueq=5, **{"as": 5, "uas": 5, "and": 3, "or": 2, "imp": 1})
def ex_txt(x, p=0):
    k = x["k"]
    two = lambda op: "%s%s%s" % (ex_txt(x["x"], PREC[k] + 1), op, ex_txt(x["y"], PREC[k] + 1))
    s = {"str": lambda: x["v"], "lhs": lambda: x["a"], "opt": lambda: "{" + ex_txt(x["x"]) + "}",
         "ref": lambda: "%s%s.%s" % (x["c"], "[%d]" % x["n"] if x["n"] or x["show"] else "", x["a"]),
         "eq": lambda: two(" = "), "ne": lambda: two(" != "), "ueq": lambda: two(" == "),
         "as": lambda: "%s := %s" % (x["a"], ex_txt(x["y"], 6)), "uas": lambda: "%s :== %s" % (x["a"], ex_txt(x["y"], 6)),
         "and": lambda: two(", "), "or": lambda: two("; "), "imp": lambda: two(" ==> "),
         "score": lambda: "setscore %d" % x["w"]}[k]()
    return "(%s)" % s if PREC[k] < p else s
def rule_txt(r):
    s = "%s = %s" % (r["l"], " ".join(el_txt(e) for e in r["e"]))
    if r["cond"]["k"] != "none": s += "\n\t" + ex_txt(r["cond"])
    return s
def grammar_txt(G): return "".join(rule_txt(r) + "\n\n" for r in G)

def entries(els):
    for e in els:
        if e["k"] == "s": yield e
        else:
            for a in e["alts"]: yield from entries(a)

def places(els, p=1):
    """Numbers the places; returns the place after the elements."""
    for e in els:
        if e["k"] == "s": e["id"] = p; p += 1
        else: p = max(places(a, p) for a in e["alts"])
    return p

class ChartGen:
    def __init__(self, r): self.r = r
    # text with blanks: the places of words
    def layout(self):
        r = self.r
        words, blanks, text, pos = [], [], "", 0
        gaps = r.choice([[0], [1], [0, 1], [2, 1], [1, 0, 2, 3], [2]])
        for i in range(r.choice([1, 2, 2, 3, 3, 3, 4])):
            if i:
                for _ in range(r.choice(gaps)):
                    blanks.append((pos, pos + 1)); text += " "; pos += 1
            n = r.choice([1, 1, 1, 2])
            words.append((pos, pos + n)); text += "".join(r.choice("abc") for _ in range(n)); pos += n
        return words, blanks, text
    def cfg(self):
        r = self.r
        words, blanks, text = self.layout()
        cats = r.choice([["a", "b"], ["a", "b", "S"], ["a", "X", "Y", "S"]])
        ls, seen = [], set()
        spans = list(words) + ([(words[0][0], words[1][1])] if len(words) > 1 and r.random() < 0.2 else [])
        for s, t in spans:
            for _ in range(r.choice([1, 1, 1, 2])):
                c = r.choice(cats)
                if (s, t, c) in seen: continue
                seen.add((s, t, c))
                ls.append(leaf(s, t, c, ["parse-aux"] if r.random() < 0.9 else ["other"], w=r.choice([0, 0, 1, 2])))
            if r.random() < 0.2: ls.append(leaf(s, t, "T", ["token"], x="w"))
        ls += [leaf(s, t, "B", ["token"], x=" ") for s, t in blanks]
        syms = cats + ["'w'"]
        rules = [dict(l=r.choice(cats), r=[r.choice(syms) for _ in range(r.choice([1, 2, 2]))], w=r.choice([0, 0, 1, 2, 5]))
                 for _ in range(r.randint(1, 5))]
        rules = [x for i, x in enumerate(rules) if not any(y["l"] == x["l"] and y["r"] == x["r"] for y in rules[:i])]
        r.shuffle(ls)
        return dict(op="cfg", text=text, limit=-1 if r.random() < 0.8 else r.randint(0, 4), agenda=r.choice(["fifo", "priority"]),
                    leaves=ls, rules=rules, at=[])
    # a rule of the whole annotator
    def elements(self, cats, depth=0, n=None):
        r = self.r
        out = []
        for _ in range(n or r.choice([1, 2, 2, 2, 3, 3, 4])):
            if depth == 0 and r.random() < 0.12:
                out.append(dict(k="g", op=r.random() < 0.3, alts=[self.elements(cats, 1, r.choice([1, 1, 2])) for _ in range(r.choice([2, 2, 3]))]))
            else:
                out.append(dict(k="s", c=r.choice(cats), st=False, op=r.random() < 0.12))
        return out
    def value(self, syms):
        r = self.r
        k = r.random()
        if k < 0.25: return dict(k="str", v=r.choice(["sg", "pl", "m"]))
        if k < 0.85: return self.ref(syms)
        return dict(k="lhs", a=r.choice(["N", "G", "R"]))
    def ref(self, syms):
        r = self.r
        e = r.choice(syms)
        return dict(k="ref", c=e["c"], n=e["n"], id=e["id"], a=r.choice(["N", "N", "G", "R"]), show=r.random() < 0.3)
    def cond(self, syms, d=0):
        r = self.r
        k = r.random()
        if d < 3 and k < 0.45:
            o = r.choice(["and", "and", "and", "or", "imp", "opt"])
            if o == "opt": return dict(k=o, x=self.cond(syms, d + 1))
            return dict(k=o, x=self.cond(syms, d + 1), y=self.cond(syms, d + 1))
        if k < 0.62: return dict(k=r.choice(["eq", "ne", "ueq"]), x=self.value(syms), y=self.value(syms))
        if k < 0.78: return dict(k=r.choice(["as", "as", "uas"]), a=r.choice(["N", "G", "R"]), y=self.value(syms))
        if k < 0.86: return dict(k="score", w=r.choice([1, 2, 3, -1]))
        return self.ref(syms)
    def chain(self, syms):
        # several assignments, with comparisons of what has (and has not yet) been assigned between them
        r = self.r
        v = lambda: dict(k="lhs", a=r.choice(["N", "G", "R"])) if r.random() < 0.4 else self.value(syms)
        x = None
        for _ in range(r.randrange(3, 7)):
            y = dict(k=r.choice(["as", "uas"]), a=r.choice(["N", "G", "R"]), y=v()) if r.random() < 0.5 else \
                dict(k=r.choice(["eq", "ne", "ueq"]), x=v(), y=v()) if r.random() < 0.8 else self.ref(syms)
            if r.random() < 0.4: y = dict(k="opt", x=y)
            x = y if x is None else dict(k="and", x=x, y=y)
        return x
    def pair(self, syms):
        # a comparison of two neighbours, alone or with something more
        r = self.r
        i = r.randrange(len(syms))
        ref = lambda e: dict(self.ref([e]))
        x, y = ref(syms[i]), ref(syms[min(i + 1, len(syms) - 1)])
        if r.random() < 0.2: x = self.value(syms)
        if r.random() < 0.5: x, y = y, x
        c = dict(k=r.choice(["eq", "ne", "ueq"]), x=x, y=y)
        k = r.random()
        if k < 0.2: c = dict(k="opt", x=c)
        if k < 0.4: c = dict(k="and", x=c, y=self.cond(syms, 2))
        elif k < 0.6: c = dict(k="and", x=self.cond(syms, 2), y=c)
        return c
    def rule(self, cats, lefts):
        r = self.r
        els = self.elements(cats)
        ents = list(entries(els))
        count = {}
        places(els)
        for e in ents:
            e["n"] = count.get(e["c"], 0)
            count[e["c"]] = e["n"] + 1
        star = 0
        if r.random() < 0.6:
            h = r.choice([e for e in els if e["k"] == "s"] or ents[:1])
            h["st"] = True
            star = h["id"]
        k = r.random()
        cond = self.cond(ents) if k < 0.5 else self.chain(ents) if k < 0.6 else self.pair(ents) if k < 0.72 else dict(k="none")
        return dict(l=r.choice(lefts), e=els, w=0, star=star, cond=cond)
    def gobio(self):
        r = self.r
        words, blanks, text = self.layout()
        cats = r.choice([["a", "b"], ["a", "b", "v"], ["a", "v", "nP"]])
        show = {"v": ["v", "V"], "nP": ["NP"], "a": ["a"], "b": ["b"]}
        ls, seen = [], set()
        spans = list(words) + ([(words[0][0], words[1][1])] if len(words) > 1 and r.random() < 0.15 else [])
        for s, t in spans:
            for _ in range(r.choice([1, 1, 1, 2])):
                c = r.choice(cats)
                a = [[k, r.choice(["sg", "pl"])] for k in (r.choice(["N", "n"]), "G") if r.random() < 0.45]
                if (s, t, c) in seen: continue
                seen.add((s, t, c))
                ls.append(leaf(s, t, r.choice(show[c]), T, a, x=r.choice(["a", "b"]), w=r.choice([0, 0, 0, 1])))
            if r.random() < 0.3: ls.append(leaf(s, t, "T", ["token"], x=r.choice(["a", "w"])))
            if r.random() < 0.1: ls.append(leaf(s, t, "O", ["other"], x="a"))
        ls += [leaf(s, t, "B", ["token"], x=" ") for s, t in blanks]
        r.shuffle(ls)
        at = r.choice([[], [], ["a"], ["b"], ["a", "b"]])
        syms = cats * 3 + ["s", "x"] * r.randint(0, 2) + ["'w'"] + ["'@%s'" % x for x in at]
        lefts = r.choice([["s"], ["s", "x"], ["s", "x", cats[0]]])
        G = [self.rule(syms, lefts) for _ in range(r.randint(1, 5))]
        f = grammar_txt(G)
        at = [x for x in ("a", "b") if "'@%s'" % x in f]
        return dict(op="gobio", text=text, limit=-1 if r.random() < 0.85 else r.randint(0, 4), leaves=ls, G=G, file=f, at=at)
    def lim(self):
        r = self.r
        specs = [dict(n=r.randint(0, 6), l=r.choice([-1, 0, 1, 2, 3, 4])) for _ in range(r.randint(0, 5))]
        if r.random() < 0.5: specs.sort(key=lambda x: x["n"])
        q = [dict(n=r.randint(0, 8), v=r.randint(0, 5), after=r.randint(0, len(specs))) for _ in range(r.randint(1, 8))]
        q.sort(key=lambda x: x["after"])
        return dict(op="lim", abs=r.choice([-1, 0, 2, 4]), specs=specs, q=q)
    def episode(self):
        k = self.r.random()
        return [self.cfg() if k < 0.3 else self.lim() if k < 0.35 else self.gobio()]

def from_model(s, r):
    text = {"two": "ab", "three": "abc", "gap": "a b", "wide": "a  b", "mixed": "a  bc"}[s["lay"]]
    ls = [leaf(x["s"], x["t"], x["c"], ["parse-aux"]) for x in s["leaves"]] + [leaf(b[0], b[1], "B", ["token"], x=" ") for b in s["blanks"]]
    r.shuffle(ls)
    return [dict(op="cfg", text=text, limit=-1, agenda=a, leaves=ls, rules=[dict(x, w=0) for x in s["rules"]], at=[]) for a in ("fifo", "priority")]

def p12(c):
    exe = driver()
    c.assumptions += ["the given edges neither begin nor end with a blank, rules do not mention blanks"]
    c.model("ParseModel", "ParseModel_%s.cfg" % c.tier, coverage=False)
    c.model("ParseModel", "ParseModel_broken.cfg", expect_violation=["Complete"], coverage=False)
    sc = c.exhaustive_scripts("ParseModel", "ParseModel_scripts.cfg")
    c.conform(exe, [from_model(s, c.rng) for s in c.rng.sample(sc, min(len(sc), c.n(800, 100000)))], "ParseTrace", chunks=7, kind="model")
    g = ChartGen(c.rng)
    c.conform(exe, [g.episode() for _ in range(c.n(30000, 400000))], "ParseTrace", chunks=7, kind="random")

CHECKS = {"P12": p12}
BUILDS = [driver]
