"""P18 annotation attributes, P22 tag collections and layer conditions."""
import build as B

AIM = ["common/annotation_item.cpp", "common/annotation_item_manager.cpp", "common/string_frag.cpp", "common/zvalue.cpp",
       "common/logging.cpp", "common/psi_exception.cpp", "common/string_helpers.cpp"]
LTM = ["common/layer_tag_collection.cpp", "common/layer_tag_manager.cpp", "common/layer_tag_mask.cpp"]

def attr_driver():
    return B.build("attr", "attr_driver.cpp", AIM, libs=["log4cpp"])
def tag_driver():
    return B.build("tag", "tag_driver.cpp", LTM)

# ------------------------------------------------------------------ attributes
NAMES = ["pos", "case", "gender", "lemma", "x", "ąę", "Beg", "A", "number", "count"]
TEXTS = ["x", "", "a b", "zażółć", "nil", "any", "fail", "false", "empty", "true", "nominative", "0x1f", "1.5", "--1", "1e3",
         "x" * 300, "NULL_ZVALUE", "5 ", "-", "+", "_", "a,b;c=d"]
NUMS = [("0", 0), ("1", 1), ("-1", -1), ("12", 12), ("007", 7), ("+5", 5), ("1073741823", 2**30 - 1),
        ("1073741824", 2**30), ("-1073741824", -2**30), ("-1073741825", -2**30 - 1), ("2147483647", 2**31 - 1),
        ("-2147483648", -2**31), (" 3", 3), ("99999999999", None), ("123456789", 123456789)]

def setting(r, how=None):
    how = how or r.choice(["text", "text", "text", "symbol", "int", "bool", "zvalue"])
    if how == "symbol":
        return dict(how=how, v=r.choice([t for t in TEXTS if t not in ("nil", "any", "fail")]), num="")
    if how == "int":
        n = r.choice([x for x in NUMS if x[1] is not None] + [("", r.randint(-10**6, 10**6))])[1]
        return dict(how=how, v=str(n), num=str(n))
    if how == "bool":
        return dict(how=how, v=r.choice(["true", "false"]), num="")
    if r.random() < 0.4:
        s, n = r.choice(NUMS)
        if how == "zvalue" and n is None:
            how = "text"
        return dict(how=how, v=s, num="" if n is None else str(n))
    return dict(how=how, v=r.choice(TEXTS), num="")

def attr_episode(r, n, names, big=False):
    ops = [dict(op="reset")]
    k = 0
    cats = ["T", "T", "X", ""]
    texts = ["x", "x", "żółw", "", "a b"]
    pool = [setting(r) for _ in range(4)]
    for _ in range(n):
        p = r.random()
        if k < 2 or (p < 0.15 and k < 6):
            w = r.random()
            if k == 0 or w < 0.4:
                src = r.choice(["own", "text", "own", "none"])
                ops.append(dict(op="new", c=r.choice(cats), x="" if src == "none" else r.choice(texts), src=src))
            else:
                ops.append(dict(op=r.choice(["copy", "recat", "retext", "recattext"]), i=r.randint(1, k), c=r.choice(cats),
                                x=r.choice(texts), src=r.choice(["own", "text"])))
            k += 1
        elif p < 0.22:
            ops.append(dict(op="setcat", i=r.randint(1, k), c=r.choice(cats)))
        elif p < 0.32:
            ops.append(dict(op="addvalues", i=r.randint(1, k), j=r.randint(1, k)))
        else:
            s = setting(r) if r.random() < 0.4 else r.choice(pool)
            ops.append(dict(op="set", i=r.randint(1, k), name=r.choice(names), **s))
    return ops

def p18(c):
    exe = attr_driver()
    c.assumptions += ["at most 128 attribute names per registry (the documented capacity)",
                      "attribute values are text without NUL characters, integers of the host's int type, or truth values"]
    c.model("AttrModel", "AttrModel_%s.cfg" % c.tier, coverage=False)
    scripts = c.exhaustive_scripts("AttrModel", "AttrModel_scripts.cfg")
    if c.quick():
        scripts = c.rng.sample(scripts, 6000)
    c.conform(exe, scripts, "AttrTrace", chunks=7, kind="model")
    r = c.rng
    eps = []
    for _ in range(c.n(400, 6000)):
        eps.append(attr_episode(r, r.randint(5, 25), r.sample(NAMES, r.randint(1, 4))))
    for _ in range(c.n(12, 200)):       # many attributes and many values
        eps.append(attr_episode(r, 40, ["a%d" % i for i in range(r.choice([10, 60, 100]))]))
    for _ in range(c.n(3, 30)):         # a registry filled to its capacity; many distinct values
        e = [dict(op="reset"), dict(op="new", c="T", x="t", src="own"), dict(op="new", c="T", x="t", src="own")]
        order = list(range(128)); r.shuffle(order)
        for i in order:
            e.append(dict(op="set", i=1, name="n%d" % i, how="text", v="value %d" % r.randint(0, 500), num=""))
            if i % 16 == 0: e.append(dict(op="addvalues", i=2, j=1))
        eps.append(e)
    c.conform(exe, eps, "AttrTrace", chunks=7, kind="random")

# ------------------------------------------------------------------ tags
def tag_names(r):
    pool = ["a", "b", "ab", "symbol", "token", "token-x", "a b", "ż", "!p", "!q", "!pl", "*", "x.y", "_", "A", "9"]
    return r.sample(pool, r.randint(2, 6))

def tag_episode(r, n, pool=None, limit=5, more=("other",)):
    pool = pool or tag_names(r)
    langs = ["pl", "en"]
    ops = [dict(op="reset", plane=[])]
    nc = nm = 0
    pl = lambda ns: [x for x in ns if x.startswith("!")]
    for _ in range(n):
        p = r.random()
        some = [r.choice(pool) for _ in range(r.randint(1, 3))]
        if nc < 2 or (p < 0.25 and nc < limit):
            how = r.choice(["empty", "single", "list", "vector", "fromlist", "fromvector", "spec", "singlelang", "listlang", "lang"])
            if how in ("empty", "lang"): some = []
            if how in ("single", "singlelang"): some = some[:1]
            lang = r.choice(langs)
            lt = ["!" + lang] if "lang" in how else []
            ops.append(dict(op="coll", how=how, names=some, lang=lang, langtag=lt, spec=",".join(some), plane=pl(some) + lt)); nc += 1
        elif p < 0.4 and nc < limit:
            w = r.choice(["union", "inter", "inter", "onlyplane", "planetags"])
            ops.append(dict(op=w, a=r.randint(1, nc), b=r.randint(1, nc), plane=[])); nc += 1
        elif p < 0.7 and nm < 4:
            how = r.choice(["any", "none", "coll", "alt2", "alt3", "altv", "spec", "spec", "single", "list", "fromlist", "vector",
                            "singlelang", "listlang", "names", "nameslang"])
            alts = [[r.choice(pool) for _ in range(r.randint(1, 3))] for _ in range(r.randint(1, 3))]
            if how in ("single", "singlelang"): alts = [alts[0][:1]]
            if how in ("list", "fromlist", "vector", "listlang"): alts = alts[:1]
            lang = r.choice(langs)
            lt = ["!" + lang] if "lang" in how else []
            used = how in ("spec", "single", "list", "fromlist", "vector", "singlelang", "listlang", "names", "nameslang")
            k = r.randint(0, 4)
            ops.append(dict(op="mask", how=how, a=r.randint(1, nc), b=r.randint(1, nc), c=r.randint(1, nc),
                            cs=[r.randint(1, nc) for _ in range(k)], alts=alts, lang=lang, langtag=lt,
                            spec=";".join(",".join(a) for a in alts),
                            plane=(pl([x for a in alts for x in a]) + lt) if used else [])); nm += 1
        elif p < 0.85 and nm:
            ops.append(dict(op=r.choice(["isnone", "issome"]), m=r.randint(1, nm), plane=[]))
        elif p < 0.95:
            ops.append(dict(op="isthere", name=r.choice(pool + list(more)), a=r.randint(1, nc), plane=[]))
        else:
            alts = [[r.choice(pool) for _ in range(r.randint(1, 3))] for _ in range(r.randint(1, 3))]
            ops.append(dict(op="splitmask", alts=alts, spec=";".join(",".join(a) for a in alts), plane=[]))
            ops.append(dict(op="splitcoll", names=alts[0], spec=",".join(alts[0]), plane=[]))
    return ops

def p22(c):
    exe = tag_driver()
    c.assumptions += ["at most 64 distinct tag names (the capacity), names contain no comma or semicolon and are not empty"]
    c.model("TagModel", "TagModel_%s.cfg" % c.tier, coverage=False)
    scripts = c.exhaustive_scripts("TagModel", "TagModel_scripts.cfg")
    if c.quick():
        scripts = c.rng.sample(scripts, 6000)
    c.conform(exe, scripts, "TagTrace", chunks=7, kind="model")
    r = c.rng
    eps = [tag_episode(r, r.randint(8, 24)) for _ in range(c.n(600, 8000))]
    for _ in range(c.n(12, 150)):      # the registry filled to its capacity, in any order
        pool = ["t%d" % i for i in range(51)] + ["!%d" % i for i in range(10)]
        r.shuffle(pool)
        # "symbol" and these 63 names are all there is room for
        first = r.choice([[], ["!pl", "!en"]])
        names = first + pool + [x for x in ["!pl", "!en"] if x not in first]
        e = [dict(op="reset", plane=[])]
        shift = 0
        for i in range(0, 63, 7):
            ns = names[i:i + 7]
            e.append(dict(op="coll", how=r.choice(["list", "vector", "spec"]), names=ns, lang="", langtag=[], spec=",".join(ns),
                          plane=[x for x in ns if x[0] == "!"])); shift += 1
        for n in (names[-1], names[0], names[-2]):
            e.append(dict(op="coll", how="single", names=[n], lang="", langtag=[], spec=n, plane=[n] if n[0] == "!" else [])); shift += 1
        nm = 0
        for k in (r.randint(shift - 2, shift), r.randint(1, shift)):
            e.append(dict(op="mask", how="coll", a=k, b=1, c=1, cs=[], alts=[], lang="", langtag=[], spec="", plane=[])); nm += 1
        ep = tag_episode(r, 12, names, limit=6, more=())
        for o in ep[1:]:
            o = dict(o)
            for k in ("a", "b", "c"):
                if k in o: o[k] += r.choice([0, shift])
            if "cs" in o: o["cs"] = [x + shift for x in o["cs"]]
            if "m" in o: o["m"] += nm
            e.append(o)
        eps.append(e)
    c.conform(exe, eps, "TagTrace", chunks=7, kind="random")

CHECKS = {"P18": p18, "P22": p22}
BUILDS = [attr_driver, tag_driver]
