"""P21: running a pipeline line by line.  Specification: spec/RunOps.tla (what a run writes), spec/RunModel.tla (the
runner as a machine), spec/RunTrace.tla (validates recorded runs)."""
import os, subprocess
import build as B
import c_chart, c_cut, c_lex

FW = ["framework/" + f for f in """pipe_runner.cpp aliaser.cpp shallow_aliaser.cpp split_pipeline.cpp auto_completer.cpp
      factories_keeper.cpp help_formatter.cpp console_help_formatter.cpp version_information.cpp processors_helper.cpp""".split()]
COMMON = ["common/" + f for f in """aligning_writer_worker.cpp annotator.cpp annotator_factory.cpp annotator_promise.cpp
    bi_lang_specific_processor_file_fetcher.cpp bi_language_dependent_annotator_factory.cpp configurator.cpp
    cutter_annotator_options.cpp encoding_converter.cpp escaping.cpp file_fetcher.cpp its_data.cpp
    lang_specific_processor_file_fetcher.cpp language_dependent_annotator_factory.cpp lattice_iter_writer.cpp
    lattice_worker.cpp lattice_writer_output_iterator.cpp lemmatizer_output_iterator.cpp limit_checker.cpp
    non_annotator_promise.cpp processor.cpp processor_factory.cpp processor_file_fetcher.cpp processor_promise.cpp
    psi_quoter.cpp quoter.cpp regexp.cpp stream_helpers.cpp stream_lattice_reader.cpp utt_like_quoter.cpp
    xml_property_tree.cpp ant_like_path_glob.cpp segment_glob.cpp object_cache.cpp put_zsyntree_into_lattice.cpp
    string_inflection.cpp""".split()]
DIRS = """formats/txt formats/utt formats/psi/psi_reader formats/psi/psi_writer formats/simple formats/bracketing/bracketing-writer
    formats/morphology/morphology-writer formats/phrases/phrases-writer formats/json-simple formats/dot tools/tokenizers/tp
    tools/segmenters/srx tools/recognizers/langguesser tools/converters/unumsunt tools/normalizers/simplenorm tools/tokenizers/detok
    tools/lemmatizers/lamerlemma tools/lexica/bilexicon tools/lexica/mapper tools/converters/joiner tools/converters/selector
    tools/converters/antiselector tools/parsers/puddle tools/datastructures/lexica""".split()
SKIP = ("puddle_main.cpp", "bigram-generator.cpp")
def sources():
    r = []
    for d in DIRS:
        r += [d + "/" + f for f in sorted(os.listdir(os.path.join(B.REPO, d))) if f.endswith(".cpp") and f not in SKIP]
    return r
def driver():
    gob = c_chart.sources()
    return B.build("run", "run_driver.cpp", sorted(set(B.LATTICE + FW + COMMON + sources() + gob + ["tiniconv/tiniconv.c", "tiniconv/tiniconv_desc.c", "tests/test_extractor.cpp", "tests/test_batch.cpp",
            "tools/datastructures/psi_query/fsa_multi_store.cpp", "tools/datastructures/psi_query/fsa_lexicon_base.cpp"] +
        ["utf8case/" + f for f in os.listdir(os.path.join(B.REPO, "utf8case")) if f.endswith(".cpp")] +
        ["uchardet/src/" + f for f in os.listdir(os.path.join(B.REPO, "uchardet/src")) if f.endswith(".cpp")])),
        ["utf8", "utf8case", "framework", "tools", "tools/datastructures/psi_query", "tools/parsers/gobio", "tests"] + DIRS + [c_chart.G + s for s in c_chart.SUBS],
        ["log4cpp", "pcrecpp", "cmph", "boost_program_options", "boost_filesystem", "boost_system", "boost_iostreams", "z"], extra=["-fno-access-control", "-I" + os.path.join(B.VERIF, "lib/noperl")])



# ---- pipelines whose output is prescribed
class RunGen:
    def __init__(self, r):
        self.r = r
        self.n = 0
    def rules_file(self, rules, kind="tok"):
        self.n += 1
        f = "f%d" % self.n
        if kind == "tok":
            els = [dict(k="rule", c=x["c"], re=x["re"]) for x in reversed(rules)]
            return f, dict(op="file", n=f, text=c_cut.rgx_txt(els, self.r))
        return f, dict(op="file", n=f, text=c_cut.srx_txt([dict(p="pl", langs=["pl"], name="g")], [dict(name="g", rules=rules)], False, self.r))
    def exact(self, P, p):
        """[operations] that define pipeline p with settings P"""
        r = self.r
        ops, a = [], []
        if P["reader"] == "whole": a = ["txt-reader", "--whole-text", "!"]
        elif r.random() < 0.4: a = ["txt-reader", "!"]
        if P["kind"] != "frag":
            f, op = self.rules_file(P["rules"], P["kind"])
            ops.append(op)
            if r.random() < 0.25: a += ["lang-guesser", "--force", "--only-langs", "pl", "!"]
            a += [dict(tok="tp-tokenizer", srx="srx-segmenter")[P["kind"]], "--lang", "pl", "--rules", "@D@/" + f]
            what = dict(tok="token", srx="segment")[P["kind"]]
            for k in ("hard", "soft"): a += ["--%s-length-%s-limit" % (dict(tok="token", srx="sentence")[P["kind"]], k), str(P[k])]
        else:
            what = "frag"
        if P["kind"] != "frag" : a += ["!"]
        elif not a: a = ["txt-reader", "!"]
        a += ["simple-writer", "--tags", what, "--sep", P["sep"]] + (["--with-blank"] if P["blank"] else [])
        return ops + [dict(op="pipe", p=p, args=a, exact=[P])]
    def settings(self):
        r = self.r
        g = c_cut.CutGen(r)
        g.ch = sorted(set(g.ch) | {" ", "a"})
        kind = r.choice(["tok", "tok", "tok", "srx", "frag"])
        hard, soft = g.limits()
        if kind == "tok": rules = [dict(c=r.choice(["T", "B", "Ra", "Rb"]), re=[g.branch() for _ in range(r.choice([1, 1, 2]))]) for _ in range(r.randint(1, 4))]
        elif kind == "srx": rules = [g.srx_rule() for _ in range(r.randint(1, 3))]
        else: rules, hard, soft = [], 0, 0
        P = dict(kind=kind, rules=rules, hard=hard, soft=soft, reader=r.choice(["lines", "lines", "whole"]), blank=r.random() < 0.4, sep=r.choice(["|", "::", " "]))
        return g, P
    def exact_run(self):
        r = self.r
        ops = [dict(op="reset")]
        gens = []
        for i in range(r.choice([1, 1, 2])):
            g, P = self.settings()
            gens.append(g)
            ops += self.exact(P, "p%d" % i)
        line = lambda: r.choice(gens).text(0, r.choice([0, 3, 8, 12]))
        for i in range(len(gens)):
            ops.append(dict(op="new", r="r%d" % i, p="p%d" % i, byline=r.random() < 0.8))
        for _ in range(r.randint(1, 4)):
            k = r.random()
            i = r.randrange(len(gens))
            pool = [line() for _ in range(r.randint(1, 3))] + [[]]
            ls = [r.choice(pool) for _ in range(r.choice([0, 1, 2, 4, 7]))]
            if k < 0.6: ops.append(dict(op="feed", r="r%d" % i, ls=ls, final=r.random() < 0.7))
            elif k < 0.8: ops.append(dict(op="one", r="r%d" % i, ls=[line()]))
            else: ops.append(dict(op="alone", p="p%d" % i, mode=r.choice(["line", "doc"]), ls=[line()], final=True))
        return ops

    def from_model(self, s):
        t = "".join(s["input"])
        ls = t.split("\n")
        final = t.endswith("\n")
        if final or t == "": ls.pop()
        P = s["pipe"]
        ops = [dict(op="reset")] + self.exact(P, "p")
        return ops + [dict(op="new", r="r", p="p", byline=s["byline"]), dict(op="feed", r="r", ls=[list(x) for x in ls], final=final)]

# ---- other pipelines
LEXICON = "kot kot subst,g=m,decl=2 case=nom,num=sg\nkota kot subst,g=m num=sg,case=gen,asp=x\npies pies subst,decl=1,g=m num=sg\npsa pies subst,a=1,g=m asp=y,case=gen\nma mieć verb num=sg,asp=i\nma mój adj f\nma ma subst\nAla Ala subst,g=f case=nom\nala ala subst\n" \
          "cat cat subst\ncats cat subst\nsaw see verb\nsaw saw subst\nżółw żółw subst,g=m\nżółwia żółw subst,g=m\n"
MAPPING = "kot cat subst\npies dog subst g=v\nma have verb\nkot puss subst k=v\nżółw turtle subst\nAla Alice subst\n"
BILEX = "kot+subst cat+noun;puss+noun\npies+subst dog+noun\nmieć+verb have+verb;own+verb\nżółw+subst turtle+noun k=v\n"
WORDS = {
    "pl": "Ala ma kota . Pies nie lubi kot ? ul. Długa 5, tel. psa kota żółwia Gżegżółka http://x.pl/a <b>tag</b> 12.30 dr. Kowalski Zażółć gęślą jaźń! np. m.in. ala 100 % itd. pies ma".split(" "),
    "en": "Mr. Smith saw cats , i.e. a cat . 'tis don't U.S. dogs ran 3.14 e.g. saw the John's http://a.b ? Dr. It is 5 p.m. now".split(" "),
}
def file(n, text): return dict(op="file", n=n, text=text)
TOK = ["tp-tokenizer", "--lang", "pl"]
LEM = TOK + ["!", "lamerlemma", "--lang", "pl", "--plain-text-lexicon", "@D@/lemmas"]
CONVERTED = LEM + ["!", "tagset-converter", "--lang", "pl", "--rules", "%ITSDATA%/pl-morfologik2gobio.u"]
WRITERS = [["psi-writer"], ["psi-writer", "--no-header"], ["simple-writer", "--tags", "token"], ["json-simple-writer"], ["dot-writer"],
           ["bracketing-writer"], ["bracketing-writer", "--show-attributes", "pos,g"], ["phrases-writer"]]
PIPES = [
    (2, TOK), (2, ["srx-segmenter", "--lang", "pl"]), (1, ["srx-segmenter", "--lang", "pl", "!"] + TOK), (1, ["tp-tokenizer", "--lang", "en"]),
    (1, ["srx-segmenter", "--lang", "en"]), (2, ["txt-reader", "!", "lang-guesser"]), (1, ["txt-reader", "!", "lang-guesser", "--force"]),
    (1, ["txt-reader", "!", "lang-guesser", "--only-langs", "pl", "en"]), (1, ["txt-reader", "!", "lang-guesser", "--force", "--only-langs", "pl", "ru"]),
    (1, ["tokenize"]), (1, ["tokenise", "--lang", "pl"]), (1, ["segment"]), (1, TOK + ["!", "simplenorm-normalizer", "--lang", "pl"]),
    (3, LEM), (1, LEM + ["--level", "1"]), (1, ["lamerlemma", "--lang", "pl", "--plain-text-lexicon", "@D@/lemmas"]),
    (2, LEM + ["!", "mapper", "--lang", "pl", "--in-tags", "lemma", "--out-tags", "mapped", "--consider-text", "--clone-attributes", "--plain-text", "@D@/mapping"]),
    (2, LEM + ["!", "bilexicon", "--lang", "pl", "--trg-lang", "en", "--plain-text-lexicon", "@D@/bilex"]),
    (2, CONVERTED), (2, LEM + ["!", "puddle", "--lang", "pl"]),
    (1, LEM + ["!", "selector", "--lang", "pl", "--in-tag", "form", "--fallback-tag", "token", "--test-tag", "lexeme", "--out-tags", "selected"]),
    (1, ["txt-reader", "--whole-text", "!"] + TOK),
]
WEIGHTED = [a for w, a in PIPES for _ in range(w)]
FILES = [file("lemmas", LEXICON), file("mapping", MAPPING), file("bilex", BILEX)]
class FreeGen:
    """Pipelines of which only what they do with a line on its own is known."""
    def __init__(self, r): self.r = r
    def line(self):
        r = self.r
        z = r.random()
        if z < 0.1: return []
        if z < 0.14: return list(r.choice([" ", "  ", "\t", ".", "\r", "?!", "…"]))
        if z < 0.18: return list("".join(r.choice("aAłŻ .,?<>\t1é—") for _ in range(r.randint(1, 25))))
        ws = WORDS[r.choice(["pl", "pl", "en"])]
        return list((" " * r.choice([0, 0, 0, 1])) + r.choice([" ", " ", " ", "  "]).join(r.choice(ws) for _ in range(r.randint(1, 8))) + r.choice(["", "", ".", " ", "\r"]))
    def episode(self):
        r = self.r
        ops = [dict(op="reset")] + FILES
        n = r.choice([1, 1, 2])
        pool = [self.line() for _ in range(r.randint(2, 4))] + [[]]
        if r.random() < 0.5: pool.append(pool[0] + list(" ") + pool[1])
        news, runs = [], []
        for i in range(n):
            ops.append(dict(op="pipe", p="p%d" % i, args=r.choice(WEIGHTED) + ["!"] + r.choice(WRITERS), exact=[]))
            news.append(dict(op="new", r="r%d" % i, p="p%d" % i, byline=r.random() < 0.85))
        feeds = []
        for _ in range(r.choice([1, 2, 3])):
            j = r.randrange(n)
            ls = [r.choice(pool) for _ in range(r.choice([0, 1, 2, 3, 5, 7]))]
            final = r.random() < 0.7
            if r.random() < 0.2: feeds.append(dict(op="one", r="r%d" % j, ls=[r.choice(pool)]))
            else: feeds.append(dict(op="feed", r="r%d" % j, ls=ls, final=final))
        # what every line (or document) gives on its own
        alone, seen = [], set()
        for f in feeds:
            j = int(f["r"][1:])
            lines = f["ls"] if news[j]["byline"] or f["op"] == "one" else []
            for x in lines:
                if (j, tuple(x)) not in seen:
                    seen.add((j, tuple(x)))
                    alone.append(dict(op="alone", p="p%d" % j, mode="line", ls=[x], final=False))
            if f["op"] == "feed" and not news[j]["byline"]: alone.append(dict(op="alone", p="p%d" % j, mode="doc", ls=f["ls"], final=f["final"]))
        r.shuffle(alone)
        if alone and r.random() < 0.2: alone.append(r.choice(alone))
        return ops + alone + news + feeds

def p21(c):
    exe = driver()
    c.assumptions += ["what a pipeline of other processors makes of a line is taken from a run on that line alone, in a new process",
                      "lines without NUL characters"]
    args = [os.path.join(B.REPO, "framework")]
    c.model("RunModel", "RunModel_%s.cfg" % c.tier, coverage=False)
    for leak in ("doc", "cut", "eof", "empty"): c.model("RunModel", "RunModel_leak_%s.cfg" % leak, expect_violation=["Right"])
    g = RunGen(c.rng)
    scripts = c.exhaustive_scripts("RunModel", "RunModel_scripts.cfg")
    scripts = c.rng.sample(scripts, min(len(scripts), c.n(600, 6000)))
    c.conform(exe, [g.from_model(s) for s in scripts], "RunTrace", chunks=7, kind="exhaustive", exe_args=args)
    c.conform(exe, [RunGen(c.rng).exact_run() for _ in range(c.n(500, 8000))], "RunTrace", chunks=7, kind="prescribed", exe_args=args)
    c.conform(exe, [FreeGen(c.rng).episode() for _ in range(c.n(300, 5000))], "RunTrace", chunks=7, kind="pipelines", exe_args=args)

CHECKS = {"P21": p21}
BUILDS = [driver]
