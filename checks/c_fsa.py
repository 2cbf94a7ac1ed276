"""P19 operations on finite automata."""
import build as B

def fsa_driver():
    return B.build("fsa", "fsa_driver.cpp", ["common/logging.cpp"], incs=["tools/datastructures/psi_query"], libs=["log4cpp"])

EPS, WILD = 255, 254

def automaton(r, wild=False, eps=True, nmax=4):
    n = r.randint(1, nmax)
    sig = [97, 98, 99][:r.randint(1, 3)] + ([WILD] if wild else [])
    d = set()
    for _ in range(r.randint(0, 2 * n + 1)):
        d.add((r.randrange(n), EPS if eps and r.random() < 0.2 else r.choice(sig), r.randrange(n)))
    def some(p):
        s = [x for x in range(n) if r.random() < p]
        return s if s or r.random() < 0.15 else [r.randrange(n)]
    d = list(d); r.shuffle(d)
    return dict(n=n, s=some(0.25), f=some(0.3), d=[list(x) for x in d])

def word(r, k=4):
    return [r.choice([97, 98, 99]) for _ in range(r.randint(0, k))]

def episode(r):
    wild = r.random() < 0.15
    ops = [dict(op="reset")]
    size, eps = {}, {}
    for a in range(1, r.randint(2, 3) + 1):
        if r.random() < 0.75:
            e = r.random() < 0.6
            ops.append(dict(op="build", a=a, m=automaton(r, wild, e))); size[a] = 4; eps[a] = e
        else:
            how = r.choice(["symbol", "string", "range"])
            w = [r.choice([97, 98, 195])] if how == "symbol" else word(r)
            ops.append(dict(op="word", a=a, how=how, w=w)); size[a] = len(w) + 1; eps[a] = False
    slots = list(size)
    for _ in range(r.randint(2, 6)):
        a = r.choice(slots)
        p = r.random()
        if p < 0.4:
            f = r.choice(["reverse", "reachable", "prune", "epsRemove", "minimize", "minimize", "option", "plus", "star"])
            if f == "minimize" and size[a] > 14: f = "epsRemove"
            ops.append(dict(op="apply", a=a, f=f))
            if f in ("option", "star"): size[a] += 2
            if f in ("option", "star", "plus"): eps[a] = True
            if f in ("epsRemove", "minimize"): eps[a] = False
        elif p < 0.5 and size[a] <= 14:
            if eps[a]:
                ops.append(dict(op="apply", a=a, f="epsRemove"))
            ops.append(dict(op="apply", a=a, f=r.choice(["determinize", "minimize"])))
            eps[a] = False
            ops.append(dict(op="todet", a=a, ws=[word(r, 5) for _ in range(3)], k=3))
        elif p < 0.8:
            b = r.choice([x for x in slots if x != a])
            fs = ["unify", "concatenate", "intersect", "intersect"] + (["intersectAny"] * 3 if wild else []) + ["assign", "swap"]
            f = r.choice(fs)
            if f in ("unify", "concatenate") and size[a] + size[b] > 16: f = "swap"
            if f.startswith("intersect") and size[a] * size[b] > 24: f = "assign"
            ops.append(dict(op="combine", a=a, b=b, f=f))
            if f in ("unify", "concatenate"): size[a] += size[b]; eps[a] = True
            elif f.startswith("intersect"): size[a] *= size[b]; eps[a] = eps[a] or eps[b]
            elif f == "assign": size[a] = size[b]; eps[a] = eps[b]
            else: size[a], size[b], eps[a], eps[b] = size[b], size[a], eps[b], eps[a]
        elif not eps[a]:
            for _ in range(3):
                ops.append(dict(op="in", a=a, w=word(r, 5)))
    return ops

def incremental(r):
    k = r.choice([2, 3])
    ws = sorted({tuple(r.choice([97, 98, 200][:k]) for _ in range(r.randint(0, r.choice([2, 4, 5])))) for _ in range(r.randint(0, 14))})
    if r.random() < 0.2 and ws:
        ws.append(r.choice(ws)); ws.sort()
    return [dict(op="reset"), dict(op="incremental", ws=[list(w) for w in ws])]

def p19(c):
    exe = fsa_driver()
    c.assumptions += ["the symbols 253 to 255 are reserved", "determinize is applied to automata without empty moves, as documented",
                      "membership is asked of automata without empty moves", "words for incremental minimization are sorted"]
    c.model("FsaModel", "FsaModel_%s.cfg" % c.tier)
    c.conform(exe, [episode(c.rng) for _ in range(c.n(3000, 30000))], "FsaTrace", chunks=7, kind="random")
    c.conform(exe, [incremental(c.rng) for _ in range(c.n(700, 8000))], "FsaTrace", chunks=7, kind="words")

CHECKS = {"P19": p19}
BUILDS = [fsa_driver]
