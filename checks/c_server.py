"""P14-P17 and P23: the web server."""
import build as B
SRC = ["server/server/" + x + ".cpp" for x in ("request_parser", "request_handler", "mime_types", "reply", "connection", "server")] + \
      ["server/" + x + ".cpp" for x in ("psi_server", "psi_request_handler", "session", "session_manager")] + \
      ["server/mpfd-parser/" + x + ".cpp" for x in ("Parser", "Field", "Exception")] + \
      ["common/" + x + ".cpp" for x in ("md5", "guid_generator", "file_storage", "file_recognizer", "file_extractor", "regexp",
                                        "object_cache", "logging")]
def server_driver():
    return B.build("server", ["server_driver.cpp", "fex_stub.cpp"], SRC, incs=["server", "server/server", "server/mpfd-parser"],
                   libs=["boost_thread", "boost_filesystem", "boost_system", "log4cpp", "pcrecpp", "magic", "pthread"],
                   driver_extra=["-fno-access-control"])

def by(s):
    return list(s) if isinstance(s, (bytes, bytearray)) else list(s.encode())
TOK = "ABCZaz09!#$%&'*+-.^_`|~"
def tok(r, n=6):
    return "".join(r.choice(TOK) for _ in range(r.randint(1, n)))
def pieces(r, b, most=None):
    """b cut into consecutive pieces"""
    k = r.choice([1, 1, 2, 3, 5, 9, len(b)])
    cuts = sorted(r.randint(0, len(b)) for _ in range(min(k, len(b)) - 1)) if k < len(b) else list(range(1, len(b)))
    if most and len(cuts) > most: cuts = sorted(r.sample(cuts, most))
    cuts = [0] + cuts + [len(b)]
    return [b[a:z] for a, z in zip(cuts, cuts[1:])]

# ------------------------------------------------------------------ P14
def value(r):
    return bytes(r.choice(b"abc ;=/,\"\xc5\xbc\xff%1:") for _ in range(r.choice([0, 1, 3, 10, 30])))
def request(r):
    post = r.random() < 0.55
    m = "POST" if post else r.choice(["GET", "GET", "HEAD", "P", "POSTS", "post", tok(r)])
    u = bytes(r.choice(b"/abc%2e?&=+.\xc3\xb3\x80") for _ in range(r.choice([0, 1, 2, 8, 40])))
    hs = [(tok(r).encode(), value(r)) for _ in range(r.choice([0, 0, 1, 2, 4]))]
    body = b""
    if m == "POST":
        n = r.choice([0, 0, 1, 2, 3, 9, 10, 60, 200])
        multi = r.random() < 0.5
        body = bytes(r.choice(b"ab\r\n\0\xff-=&") if multi else r.choice(b"ab&=%+\0\xff ") for _ in range(n))
        length = str(len(body)).encode()
        if n and r.random() < 0.1: length = r.choice([b"0" + length, length + b" ", length + b"x"])
        if not n: length = r.choice([b"0", b"", b"x", b"0"])
        extra = [(b"Content-Length", length)] if n or r.random() < 0.7 else []
        if multi: extra.append((b"Content-Type", b"multipart" + r.choice([b"", b"/form-data; boundary=x"])))
        elif r.random() < 0.5: extra.append((b"Content-Type", r.choice([b"text/plain", b"multi", b"Multipart/x"])))
        if extra and r.random() < 0.2:          # the last header of a name counts
            extra.insert(0, (b"Content-Length", r.choice([b"3", b"100", b""])))
            if not n and all(k != b"Content-Length" for k, _ in extra[1:]): extra.pop(0)
        for h in extra: hs.insert(r.randint(0, len(hs)) if len(extra) < 2 else len(hs), h)
    elif r.random() < 0.3: hs.append((b"Content-Length", b"5"))
    w = m.encode() + b" " + u + b" HTTP/%s.%s\r\n" % (r.choice([b"1", b"0", b"2", b"10", b"01"]), r.choice([b"1", b"0", b"12"]))
    for k, v in hs:
        if len(v) > 2 and r.random() < 0.15 and k not in (b"Content-Length", b"Content-Type"):
            i = r.randint(1, len(v) - 1)
            v = v[:i] + b"\r\n" + r.choice([b" ", b"\t", b"  \t"]) + v[i:].lstrip(b" \t")
        w += k + b": " + v + b"\r\n"
    return w + b"\r\n" + body
def damaged(r, w):
    w = bytearray(w)
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(w)); k = r.random()
        if k < 0.6: w[i] = r.choice([0, 9, 10, 13, 32, 58, 65, 127, 128, 255, r.randrange(256)])
        elif k < 0.8: del w[i]
        else: w.insert(i, r.choice([10, 13, 32, 47, 58, 65]))
        if not w: return b"\0"
    return bytes(w)
def http_episode(r):
    ops = [dict(op="new")]
    for _ in range(r.randint(1, 4)):
        w = request(r)
        if r.random() < 0.35: w = damaged(r, w)
        elif r.random() < 0.2: w = w[:r.randrange(len(w))]
        elif r.random() < 0.2: w += bytes(r.choice(b"GET x\r\n") for _ in range(r.randint(1, 9)))
        for p in pieces(r, w): ops.append(dict(op="feed", b=by(p)))
        ops.append(dict(op="again"))
    return ops

def p14(c):
    exe = server_driver()
    c.assumptions += ["header names are matched by exact case, exactly one blank follows the colon, bodies of requests that are not multipart contain no line breaks (the grammar the server documents by its parser)",
                      "Content-Length fits the host's int; version numbers below 10^8"]
    c.model("HttpModel", "HttpModel_%s.cfg" % c.tier, coverage=False)
    scripts = c.behaviours("HttpModel", "HttpModel_scripts.cfg", c.n(1500, 20000), 60)
    # prefixes of the same behaviour are printed too: keep complete ones
    c.conform(exe, c.rng.sample(scripts, min(len(scripts), c.n(4000, 40000))), "HttpTrace", chunks=7, kind="model")
    c.conform(exe, [http_episode(c.rng) for _ in range(c.n(900, 12000))], "HttpTrace", chunks=7, kind="random")

# ------------------------------------------------------------------ P15
def enc(r, p):
    out = b""
    for ch in p:
        k = r.random()
        if ch == 32 and k < 0.5: out += b"+"
        elif ch in b"+% " or ch < 33 or ch == 127 or k < 0.12: out += (b"%%%02x" if r.random() < 0.5 else b"%%%02X") % ch
        else: out += bytes([ch])
    return out
FILES = ["index.html", "a.html", "b.htm", "x.txt", "p.png", "g.gif", "j.jpg", "noext", "d/index.html", "d/e/f.css", "d/e/.hidden",
         "q.psis", "w x.html", "ż.html", "json.psis", "a+b.js", "50%.pdf", "big.bin", "d.d/noext", "tail.", "..x".replace("..", ".")]
def site(r):
    texts = [b"", b"x", b"<!--#psis one -->", b"a<!--#psis one -->b<!--#psis two --><!--#psis none -->", b"<!--#psis one", b"<!--#psis -->z",
             b"<!--#psis-->", b"<!-- x --><!--#psis two -->", b"<!--#psis three -->-->", bytes(range(256)), b"<!--#psis one --><!--#psis one -->" * 3]
    fs = []
    for f in r.sample(FILES, r.randint(5, len(FILES))):
        mix = b"".join(r.choice([b"a", b"-->", b"<!--", b"<!--#psis one -->", b"<!--#psis two -->", b"<!--#psis no -->", b"<!--#psis three -->"]) for _ in range(r.randint(1, 7)))
        c = r.choice(texts + [mix] * 6 + [bytes(r.randrange(256) for _ in range(r.choice([10, 511, 512, 513, 1024, 1500])))])
        if f == "big.bin": c = bytes(r.randrange(256) for _ in range(r.choice([512, 1024, 2000])))
        fs.append(dict(p=by(f), c=by(c)))
    gens = [dict(code=by("one"), text=by(r.choice(["1", "", "<!--#psis two -->", "żó" * 20]))), dict(code=by("two"), text=by("[two]")),
            dict(code=by("three"), text=by("--><!--#psis one -->"))]
    acts = [dict(code=by("q"), to=by(r.choice(["/a.html", "/index.html", "/../secret.html", "/missing", "d", "/d/"]))), dict(code=by("d/go"), to=by("/x.txt"))]
    return dict(op="site", files=fs, dirs=[by("emptydir"), by("d2/deep")], gens=gens, acts=acts)
def address(r, s):
    names = [bytes(f["p"]) for f in s["files"]]
    k = r.random()
    if k < 0.45: return b"/" + enc(r, r.choice(names))
    if k < 0.55: return b"/" + enc(r, r.choice([b"", b"d/", b"d", b"emptydir", b"emptydir/", b"d2/deep/", b"d/e", b"d/e/"]))
    if k < 0.75:
        n = r.choice(names + [b"secret.html", b"site/a.html", b"sitemap/x.html", b"../secret.html"])
        n = r.choice([b"../", b"d/../", b"..", b"d/../../", b"./", b"//", b"d/e/../../../", b"/.//", b"emptydir/../", b"...", b". ./", b".%2e/".replace(b"%2e", b".")]) + n
        return b"/" + enc(r, n)
    if k < 0.8: return r.choice([b"", b"a.html", b"d/", b"*", b"http://x/a.html", b"%2fa.html", b"\\..\\x", b"%2f%2e%2e%2fsecret.html"])
    if k < 0.9:
        a = bytearray(b"/" + enc(r, r.choice(names)))
        for _ in range(r.randint(1, 2)): a[r.randint(1, len(a)):0] = r.choice([b"%", b"%0", b"%00", b"%zz", b"%2", b"%+1", b"% 1", b"%-1", b"%0x", b"%g1", b"%1g", b"%2E%2E", b"?", b"#"])
        return bytes(a)
    return r.choice([b"/q.psis?a=1", b"/q.psis?", b"/q.psis", b"/d/go.psis?x", b"/d/go.psis", b"/z.psis?x=1", b"/json.psis?x", b"/json.psis?a/b", b"/a.html?x=1", b"/d/?q"])
def site_episode(r, n, wires=0.25):
    s = site(r)
    ops = [s]
    for _ in range(n):
        a = address(r, s)
        if r.random() < wires:
            a = bytes(x for x in a if x > 32 and x != 127) or b"/"
            w = b"GET " + a + b" HTTP/1." + r.choice([b"0", b"1"]) + b"\r\n" + r.choice([b"", b"Host: x\r\n", b"A: b\r\nC: d\r\n"]) + b"\r\n"
            ch = pieces(r, w, 6)
            if r.random() < 0.2: ch = [damaged(r, w)]
            elif r.random() < 0.1: ch = [w[:r.randrange(len(w))]]
            ops.append(dict(op="wire", chunks=[by(x) for x in ch if x]))
        else:
            m = "POST" if r.random() < 0.15 else "GET"
            ops.append(dict(op="get", h=r.choice(["base", "psi"]), uri=by(a), method=m, body=by("k=v")))
    return ops
def p15(c):
    exe = server_driver()
    c.assumptions += ["the document root contains no symbolic links", "file names without NUL; markers of included text end with a blank before -->"]
    c.model("SiteModel", "SiteModel_%s.cfg" % c.tier, coverage=False)
    r = c.rng
    addrs = c.exhaustive_scripts("SiteModel", "SiteModel_scripts.cfg")
    if c.quick(): addrs = r.sample(addrs, 9000)
    eps = []
    for i in range(0, len(addrs), 60):
        s = dict(op="site", files=[dict(p=by(p), c=by(x)) for p, x in (("a.html", "1"), ("d/index.html", "2"), ("d/a.html", "3"))], dirs=[by("X")], gens=[], acts=[])
        eps.append([s] + [dict(op="get", h=r.choice(["base", "psi"]), uri=a, method="GET", body=[]) for a in addrs[i:i + 60]])
    c.conform(exe, eps, "SiteTrace", chunks=7, kind="model")
    c.conform(exe, [site_episode(r, 30) for _ in range(c.n(60, 800))], "SiteTrace", chunks=7, kind="random")

# ------------------------------------------------------------------ P16
WHO, PAUSE = by("/who.html"), "/pause.psis"
def cookie_for(r, k, ns):
    """a Cookie header that names session k (0: none the server knows)"""
    other = r.choice(["x=1", "PSISESSIONIDX=%1", "XPSISESSIONID=%1", "psisessionid=%1", "a=PSISESSIONID=%1", "q", "=", "PSISESSIONID"])
    if k:
        v = "PSISESSIONID=%%%d" % k
        return r.choice([v, v, v, other + "; " + v, v + "; " + other, other + ";" + v, v + ";", " " + v, "\t" + v, v + "; PSISESSIONID=zzz"])
    return r.choice([[], "", other, other + "; " + other, "PSISESSIONID=", "PSISESSIONID=nosuch", "PSISESSIONID=%1x", "PSISESSIONID=x%1", "PSISESSIONID=%1 ",
                     "PSISESSIONID=zzz; PSISESSIONID=%1", "PSISESSIONID =%1", "PSISESSIONID", "; ;", "PSISESSIONID=%1%1"])
def req(r, k, ns, v=None, method=None):
    o = dict(op="req", cookie=cookie_for(r, k, ns), uri=WHO, ctype=[], body=[], method="GET")
    if v is not None:
        if r.random() < 0.5: o["uri"] = by(PAUSE + "?k=%s" % v)
        else: o.update(method="POST", uri=by(PAUSE), body=by("k=%s" % v))
    return o
def session_episode(r, n):
    ops, ns = [dict(op="sessions")], 0
    keys = ["k", "input", "ż", "a b"]
    vals = [b"", b"x", b"long" * 50, b"\0\1", "ółw".encode()]
    for _ in range(n):
        p = r.random()
        if ns == 0 or p < 0.4:
            k = r.randint(0, ns) if ns < 9 else r.randint(1, ns)
            ops.append(req(r, k, ns, r.choice([None, "1", "2", "x%2By+z"]))); ns += k == 0
        elif p < 0.6 and ns < 8:
            # two at once
            rs = []
            for i in range(2):
                k = r.randint(0, ns)
                q = req(r, k, ns, "t%d" % r.randint(1, 99)); rs.append((k, q))
            ops.append(dict(op="two", r=[q for k, q in rs])); ns += sum(k == 0 for k, q in rs)
        else:
            ops.append(dict(op="data", s=r.randint(1, ns), how=r.choice(["set", "set", "get", "clear", "default"]), k=by(r.choice(keys)), v=by(r.choice(vals))))
    return ops
def storage_episode(r, n, big=9000):
    ops, k, seen = [dict(op="room"), dict(op="storage")], 1, []
    for _ in range(n):
        if r.random() < 0.2 and k < 5: ops.append(dict(op="storage")); k += 1; continue
        c = r.choice(seen) if seen and r.random() < 0.4 else bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 63, 64, 65, 200])))
        if r.random() < 0.15 and seen: c = r.choice(seen) + b"\0"
        if r.random() < 0.2 and seen:       # long contents that differ in one place only
            o = r.choice(seen); n = r.choice([1000, 5000, big])
            o = (o or b"q") * (n // max(len(o), 1) + 1); c = bytearray(o[:n]); c[r.choice([0, n // 2, n - 1, r.randrange(n)])] ^= 1; c = bytes(c)
            if r.random() < 0.5: seen.append(c); ops.append(dict(op="store", i=r.randint(1, k), how="sum", c=by(o[:n]), ext=by("txt")))
        seen.append(c)
        ops.append(dict(op="store", i=r.randint(1, k), how=r.choice(["ext", "auto", "sum", "sum"]), c=by(c), ext=by(r.choice(["txt", "png", "tar.gz", ""]))))
    return ops
def p16(c):
    exe = server_driver()
    c.assumptions += ["identifiers are as random as the C library's generator; a repeated random part under the same number and day is not counted on",
                      "two different contents with the same MD5 sum do not occur"]
    c.model("SessionModel", "SessionModel_%s.cfg" % c.tier, coverage=False)
    c.model("SessionModel", "SessionModel_mixed.cfg", coverage=False, expect_violation=["OwnPage", "OwnData"])
    r = c.rng
    scripts = c.exhaustive_scripts("SessionModel", "SessionModel_scripts.cfg")
    eps = []
    for h in scripts:
        for _ in range(c.n(4, 30)):
            ns, ops = 0, [dict(op="sessions")]
            for x in h:
                ops.append(req(r, x["c"], ns, str(x["v"]))); ns += x["c"] == 0
            eps.append(ops)
    c.conform(exe, eps, "SessionTrace", chunks=6, kind="model")
    eps = [session_episode(r, r.randint(5, 25)) for _ in range(c.n(120, 1500))] + [storage_episode(r, r.randint(4, 20)) for _ in range(c.n(60, 800))]
    for n in (70, 5000, 140000) + (() if c.quick() else (1100000,)):       # equally long files that differ in one place only
        base = bytes(r.randrange(256) for _ in range(n)); ops = [dict(op="room"), dict(op="storage")]
        for i in r.sample([None, 0, n // 2, n - 1], 4):
            b = bytearray(base)
            if i is not None: b[i] ^= 4
            ops.append(dict(op="store", i=1, how="sum", c=by(bytes(b)), ext=by("bin")))
        eps.append(ops)
    eps.append([dict(op="sessions")] + [dict(op="guids", len=n, date=d, n=12000) for n in (5, 16, 20, 25) for d in (True, False) if (n, d) != (5, True) and (n, d) != (16, True)])
    c.conform(exe, eps, "SessionTrace", chunks=7, kind="random")

# ------------------------------------------------------------------ P17
def p17(c):
    exe = server_driver()
    c.assumptions += ["a path is always asked for as the same type", "one thread at a time, as everywhere the cache is used"]
    c.model("CacheModel", "CacheModel_%s.cfg" % c.tier, coverage=False)
    c.conform(exe, c.exhaustive_scripts("CacheModel", "CacheModel_scripts.cfg"), "CacheTrace", chunks=6, kind="model")
    r = c.rng
    eps = []
    for _ in range(c.n(300, 5000)):
        ps = r.sample(["/x", "/y", "x", "/x/y", "/x y", "/ż", "/x.txt", "/X", "y", "/a/b/c"], r.randint(1, 6))
        ops = [dict(op="cache")]
        for _ in range(r.randint(5, 40)):
            k = r.random()
            if k < 0.7: ops.append(dict(op="load", p=r.choice(ps), keep=r.random() < 0.5))
            elif k < 0.85: ops.append(dict(op="break", p=r.choice(ps), b=r.random() < 0.6))
            else: ops.append(dict(op="clear"))
        eps.append(ops)
    c.conform(exe, eps, "CacheTrace", chunks=6, kind="random")

# ------------------------------------------------------------------ P23
def urlvalue(r):
    v = bytes(r.choice(b"ab +&=%/?#.-_\0\xc5\xbc\xff<\"\r\n") for _ in range(r.choice([0, 1, 2, 5, 20, 100])))
    out = b""
    for ch in v:
        if ch == 32: out += r.choice([b"+", b"%20"])
        elif ch in b"&%+\r\n\0" or ch > 126 or (ch in b"=/?#<\"" and r.random() < 0.7) or r.random() < 0.05:
            out += (b"%%%02X" if r.random() < 0.6 else b"%%%02x") % ch
        else: out += bytes([ch])
    return out
def urlform(r):
    names = r.sample(["k", "input-text", "pipe", "a.b", "x_1", "K", "zz"], r.randint(1, 5))
    if r.random() < 0.2: names.append(names[0])
    return b"&".join(n.encode() + (b"=" + urlvalue(r) if r.random() < 0.92 else b"") for n in names)
def multiform(r):
    bnd = r.choice([b"XYZ", b"----WebKitFormBoundaryAbC123", b"b", b"--", b"0'()+_,-./:=?"])
    w = b""
    names = r.sample([b"k", b"input-file", b"pipe", b"x y", "ż".encode()], r.randint(1, 4))
    if r.random() < 0.2: names.append(names[0])
    kind = dict((n, r.random() < 0.5) for n in names)
    for n in names:
        file = kind[n]
        alpha = b"ab\r\n-" + bnd + (b"\0\xff" if file else b" =&")
        while True:
            body = bytes(r.choice(alpha) for _ in range(r.choice([0, 1, 2, 3, 10, 40, 200])))
            if r.random() < 0.2: body += r.choice([b"\r\n", b"\r", b"\r\n--", b"--", b"\r\n--" + bnd[:-1]])
            if r.random() < 0.1: body = b"\r\n\r\n" + body
            if (body + b"\r\n--" + bnd).find(b"--" + bnd) == len(body) + 2: break
        w += b"--" + bnd + b"\r\n" + b"Content-Disposition: form-data; name=\"" + n + b"\""
        if file: w += b"; filename=\"" + r.choice([b"", b"a.txt", "żó.doc".encode(), b"c:\\x y.txt", b"name=.txt"]) + b"\"" + r.choice([b"\r\nContent-Type: text/plain", b"", b"\r\nContent-Type: application/octet-stream\r\nX: y"])
        w += b"\r\n\r\n" + body + b"\r\n"
    w += b"--" + bnd + b"--" + r.choice([b"\r\n", b""])
    return b"multipart/form-data; boundary=" + bnd, w
def form_episode(r, n):
    ops, ns = [dict(op="sessions")], 0
    for _ in range(n):
        k = r.randint(0, ns) if ns < 8 else r.randint(1, ns)
        way = r.random()
        if way < 0.25:
            u = PAUSE.encode() + b"?" + urlform(r)
            ops.append(dict(op="req", cookie=cookie_for(r, k, ns), uri=by(u), ctype=[], body=[], method="GET"))
        elif way < 0.5:
            ops.append(dict(op="req", cookie=cookie_for(r, k, ns), uri=by(PAUSE), ctype=by(r.choice([b"application/x-www-form-urlencoded", b""])), body=by(urlform(r)), method="POST"))
        elif way < 0.75:
            ct, w = multiform(r)
            ops.append(dict(op="req", cookie=cookie_for(r, k, ns), uri=by(PAUSE), ctype=by(ct), body=by(w), method="POST"))
        elif ns < 8:
            k = 0
            if r.random() < 0.5: ct, w = multiform(r)
            else: ct, w = b"application/x-www-form-urlencoded", urlform(r)
            q = b"POST " + PAUSE.encode() + b" HTTP/1.1\r\nContent-Type: " + ct + b"\r\nContent-Length: %d\r\n\r\n" % len(w) + w
            ops.append(dict(op="wreq", chunks=[by(x) for x in pieces(r, q, 6) if x]))
        else: continue
        ns += k == 0
    return ops
def p23(c):
    exe = server_driver()
    c.assumptions += ["names of fields are written as they are (unreserved characters in URL-encoded forms, no quotes in multipart ones); escapes are well formed and text fields contain no NUL",
                      "a multipart form ends with its closing delimiter (and at most a line break)"]
    c.model("FormModel", "FormModel_%s.cfg" % c.tier, coverage=False)
    r = c.rng
    scripts = c.exhaustive_scripts("FormModel", "FormModel_scripts.cfg")
    if c.quick(): scripts = r.sample(scripts, min(len(scripts), 2500))
    eps = []
    for i in range(0, len(scripts), 8):
        ops = [dict(op="sessions")]
        for s in scripts[i:i + 8]:
            ops.append(dict(op="req", cookie=[], uri=by(PAUSE + ("?" if s["get"] else "")) + (s["body"] if s["get"] else []), ctype=s["ctype"],
                            body=[] if s["get"] else s["body"], method="GET" if s["get"] else "POST"))
        eps.append(ops)
    c.conform(exe, eps, "SessionTrace", chunks=7, kind="model")
    c.conform(exe, [form_episode(r, r.randint(3, 12)) for _ in range(c.n(150, 2000))], "SessionTrace", chunks=7, kind="random")

CHECKS = {"P14": p14, "P15": p15, "P16": p16, "P17": p17, "P23": p23}
BUILDS = [server_driver]
