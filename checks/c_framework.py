"""P10 completing pipelines, P11 aliases."""
import build as B

COMMON = """common/annotator_promise.cpp common/non_annotator_promise.cpp common/processor_promise.cpp common/annotator_factory.cpp
common/language_dependent_annotator_factory.cpp common/processor_factory.cpp common/processor.cpp common/annotator.cpp
common/processor_file_fetcher.cpp common/file_fetcher.cpp common/its_data.cpp common/psi_exception.cpp common/logging.cpp
""".split()
FW = """framework/aliaser.cpp framework/factories_keeper.cpp framework/auto_completer.cpp""".split()

def framework_driver():
    return B.build("framework", "framework_driver.cpp", FW + COMMON, libs=["log4cpp", "boost_program_options", "boost_filesystem", "boost_system"],
                   driver_extra=["-fno-access-control"])

# ------------------------------------------------------------------ completion
def take(n, **k):
    p = dict(n=n, ann=True, req=[], prov=[], h="indep", langs=[], q=0, t=0, fails="", aliases=[])
    p.update(k)
    return dict(op="take", p=p)

def model_episode(s):
    """A registry and a request printed by CompleteModel."""
    ops = [dict(op="reset")]
    for n, p in sorted(s["reg"].items()):
        ops.append(take(n, **{k: p[k] for k in ("ann", "req", "prov", "h", "langs", "q", "t", "fails")}))
    ops.append(dict(op="complete", request=[[dict(n=x["n"], l=x["l"]) for x in alt] for alt in s["request"]], langs=s["langs"] or ["xx"]))
    return ops

def registry(r, langs, size):
    tags = ["token", "lexeme", "form", "parse", "segment"][:r.randint(2, 5)]
    ops, names = [], []
    for n in ["a", "b", "c", "d", "e", "f", "g"][:size]:
        h = r.choice(["indep"] * 4 + ["one", "dep", "dep", "guess"]) if langs else "indep"
        ann = r.random() < 0.9
        prov = r.sample(tags, min(len(tags), r.choice([0, 1, 1, 1, 2, 2, 3])))
        req = [r.sample(tags, min(len(tags), r.choice([1, 1, 1, 2]))) for _ in range(r.choice([0, 0, 1, 1, 2]))]
        if not ann:
            h, prov, req = "indep", [], []
        ls = [] if h in ("indep", "guess") else [r.choice(langs)] if h == "one" else r.sample(langs, r.randint(1, len(langs)))
        ops.append(take(n, ann=ann, req=req, prov=prov, h=h, langs=ls, q=r.choice([0, 0, 0, -3, 2, 5, 10]), t=r.choice([-1, 0, 1, 4, 4]),
                        fails=r.choice([""] * 6 + ["psi", "std"])))
        names.append((n, h, ls))
    return ops, names

def request(r, names, langs):
    req = []
    for _ in range(r.choice([1, 1, 2, 2, 3])):
        alt = []
        for n, h, ls in r.sample(names, min(len(names), r.choice([1, 1, 1, 2, 3]))):
            alt.append(dict(n=n, l=r.choice(langs) if h == "dep" and r.random() < 0.5 else ""))
        req.append(alt)
    return req

def complete_episode(r):
    langs = r.choice([[], ["pl"], ["en", "pl"], ["pl", "en"], ["de", "en", "pl"]])
    ops, names = registry(r, langs, r.randint(2, 7))
    res = [dict(op="reset")] + ops
    for _ in range(r.randint(2, 4)):
        res.append(dict(op="complete", request=request(r, names, langs),
                        langs=r.sample(langs, r.randint(1, len(langs))) if langs else ["xx"]))
    return res

def p10(c):
    exe = framework_driver()
    c.assumptions += ["made-up processors; qualities and times are small integers", "at least one language to work for",
                      "an alternative does not list the same promise twice"]
    c.model("CompleteModel", "CompleteModel_%s.cfg" % c.tier)
    c.model("CompleteModel", "CompleteModel_langs%s.cfg" % c.n("", "3"))
    c.model("CompleteModel", "CompleteModel_circles.cfg", expect_violation=["Bounded"])
    s = c.exhaustive_scripts("CompleteModel", "CompleteModel_scripts.cfg") + c.exhaustive_scripts("CompleteModel", "CompleteModel_scripts2.cfg")
    if c.quick():
        s = c.rng.sample(s, 4000)
    c.conform(exe, [model_episode(x) for x in s], "CompleteTrace", chunks=7, kind="model")
    c.conform(exe, [complete_episode(c.rng) for _ in range(c.n(2500, 20000))], "CompleteTrace", chunks=7, kind="random")

# ------------------------------------------------------------------ aliases
def alias_episode(r):
    names = ["n%d" % i for i in range(r.randint(2, 9))]
    tags = ["token", "lexeme", "form"]
    procs = []
    bases = [t + "-generator" for t in tags]
    ops = [dict(op="reset")]
    known = set()
    loops = r.random() < 0.4
    chain = r.random() < 0.3
    if chain:
        ds = list(zip(names, names[1:]))
        if r.random() < 0.5: r.shuffle(ds)
        ops += [dict(op="alias", a=a, d=d) for a, d in ds]
    for _ in range(r.randint(2, 14)):
        p = r.random()
        if p < 0.4:
            i, j = r.randrange(len(names)), r.randrange(len(names))
            if not loops and i > j: i, j = j, i
            d = names[j] if loops or i != j else r.choice(["p1", "p2", "p3"])
            if r.random() < 0.3: d = r.choice(["p1", "p2", "p3"])
            ops.append(dict(op="alias", a=names[i], d=d))
        elif p < 0.47:
            ops.append(dict(op="void", a=r.choice(names)))
        elif p < 0.55:
            ops.append(dict(op=r.choice(["tagalias", "tagalias", "izealias"]), a=r.choice(["tokeniz", "lemma", "tag"] + names[:1]), t=r.choice(tags)))
        elif p < 0.75:
            left = [x for x in ["p1", "p2", "p3", "p4"] if x not in known]
            if left:
                n = r.choice(left); known.add(n)
                prov = r.sample(tags, r.randint(0, 3))
                req = [r.sample(tags, r.randint(1, 2)) for _ in range(r.choice([0, 0, 1]))]
                ann = r.random() < 0.85
                ops.append(take(n, ann=ann, prov=prov if ann else [], req=req if ann else [], aliases=r.sample(names, r.randint(0, min(2, len(names))))))
        else:
            n = r.choice(names + bases + ["p1", "p2", "tag", "tokeniz" + r.choice(["e", "er", "", "ise"]), "lemma", "unknown", ""])
            ops.append(dict(op="lookup", n=n))
            ops.append(dict(op="factories", n=n))
    for n in names + bases[:1] + ["p1", "tag"]:
        ops.append(dict(op="lookup", n=n))
        ops.append(dict(op="factories", n=n))
    return ops

def p11(c):
    exe = framework_driver()
    c.assumptions += ["a processor is registered once under its name", "no alias has the name of a registered processor with other destinations in mind"]
    c.model("AliasModel", "AliasModel_%s.cfg" % c.tier)
    s = c.exhaustive_scripts("AliasModel", "AliasModel_scripts.cfg")
    if c.quick():
        s = c.rng.sample(s, 1500)
    def ep(x):
        c.rng.random()
        ops = [dict(op="reset")] + x
        for n in "abc":
            ops += [dict(op="lookup", n=n)]
        return ops
    c.conform(exe, [ep(x) for x in s], "CompleteTrace", chunks=7, kind="model")
    c.conform(exe, [alias_episode(c.rng) for _ in range(c.n(1200, 15000))], "CompleteTrace", chunks=7, kind="random")

CHECKS = {"P10": p10, "P11": p11}
BUILDS = [framework_driver]
