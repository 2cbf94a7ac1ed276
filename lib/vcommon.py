"""Common machinery of the checks: TLC runs, driver runs, trace validation, evidence.

Exit codes: 0 held on everything explored, 1 violation (with a VIOLATION line),
2 an error of the check itself (build failed, the specification failed, nothing was checked)."""
import json, os, re, subprocess, sys, time, hashlib, shutil, threading, random
from concurrent.futures import ThreadPoolExecutor
import build as B

VERIF = B.VERIF
WORK = os.path.join(VERIF, "build", "work")
TLA_JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")

class CheckError(Exception):
    pass

def log(*a):
    print(*a, flush=True)

# ------------------------------------------------------------------ TLC
def run_tlc(module, cfg, env=None, workers=1, args=(), timeout=600, tag="", heap="3g"):
    """Runs TLC on spec/<module>.tla with spec/<cfg>; returns (returncode, output)."""
    meta = os.path.join(WORK, "tlc-%s-%s-%d-%d" % (module, tag, os.getpid(), threading.get_ident()))
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
           "-XX:TieredStopAtLevel=4", "-Xss32m", "-Dfile.encoding=UTF-8", "-Djava.io.tmpdir=" + meta,
           "-cp", TLA_JARS, "tlc2.TLC", "-config", cfg, "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, errors="replace")
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        rc, out = 124, (x.stdout.decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")) + "\nTIMEOUT"
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out

def tlc_numbers(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))

def tlc_actions(out, module):
    """Per-action (distinct, generated) counts from -coverage output (last report)."""
    acts = {}
    for m in re.finditer(r"<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)(?: \([^)]*\))?>: (\d+):(\d+)", out):
        acts[m.group(1)] = (int(m.group(3)), int(m.group(4)))
    return acts

# ------------------------------------------------------------------ check
class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
                        events_validated=0, models=[], actions={})
        self.assumptions = []
        self.work = os.path.join(WORK, pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.violations = 0
        self.known = load_known(pid)

    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick() else thorough

    # ---- model checking
    def model(self, module, cfg=None, must_cover=True, expect_violation=None, timeout=None, args=(), ignore=(), coverage=True):
        cfg = cfg or module + ".cfg"
        rc, out = run_tlc(module, cfg, workers=8, args=(["-coverage", "1"] if coverage else []) + list(args),
                          timeout=timeout or (240 if self.quick() else 3000), tag=self.pid, heap="8g")
        if expect_violation:
            if rc == 12 and any("Invariant %s is violated" % i in out for i in expect_violation):
                gen, dist = tlc_numbers(out)
                self.cov["models"].append(dict(module=module, config=cfg, distinct_states=dist, states_generated=gen,
                                               note="a wrong design, rejected by the specification as it must be"))
                return
            raise CheckError("model %s/%s was to be rejected, TLC exit %s:\n%s" % (module, cfg, rc, out[-3000:]))
        if rc != 0:
            raise CheckError("model %s/%s failed (TLC exit %s):\n%s" % (module, cfg, rc, out[-6000:]))
        gen, dist = tlc_numbers(out)
        acts = tlc_actions(out, module)
        acts.pop("Init", None)
        if must_cover:
            dead = [a for a, (d, g) in acts.items() if g == 0 and a not in ignore]
            if dead:
                raise CheckError("model %s/%s: actions never taken: %s" % (module, cfg, dead))
        if dist < 2:
            raise CheckError("model %s/%s explored nothing:\n%s" % (module, cfg, out[-3000:]))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["models"].append(dict(module=module, config=cfg, distinct_states=dist, states_generated=gen,
                                       actions={a: g for a, (d, g) in acts.items()}))
        log("model %s/%s: %d distinct states, %d generated" % (module, cfg, dist, gen))

    def behaviours(self, module, cfg, num, depth, timeout=300, args=()):
        """Behaviours generated by TLC -simulate; each is printed by the spec as SCRIPT <json>."""
        rc, out = run_tlc(module, cfg, workers=1, timeout=timeout, tag=self.pid + "sim",
                          args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)] + list(args))
        res = parse_scripts(out)
        if not res:
            raise CheckError("no behaviours from %s/%s (exit %s):\n%s" % (module, cfg, rc, out[-4000:]))
        return res

    def exhaustive_scripts(self, module, cfg, timeout=600, args=()):
        """All behaviours of a bounded model, printed by the spec as SCRIPT <json>."""
        rc, out = run_tlc(module, cfg, workers=1, timeout=timeout, tag=self.pid + "exh", args=args)
        if rc != 0:
            raise CheckError("script generation %s/%s failed (%s):\n%s" % (module, cfg, rc, out[-4000:]))
        gen, dist = tlc_numbers(out)
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        return parse_scripts(out)

    # ---- conformance
    def conform(self, exe, episodes, module, cfg=None, env=None, chunks=None, exe_args=(), timeout=None,
                kind="random", drv_env=None, sample=True):
        """episodes: list of lists of script operations (dicts); the first of each is a reset."""
        if not episodes:
            raise CheckError("no episodes")
        if chunks is None:
            nev = sum(len(e) for e in episodes)
            chunks = max(1, min(6, nev // 400))
        parts = [episodes[i::chunks] for i in range(chunks)]
        parts = [p for p in parts if p]
        timeout = timeout or (400 if self.quick() else 3000)
        with ThreadPoolExecutor(len(parts)) as ex:
            rs = list(ex.map(lambda ip: self._one(exe, ip[1], module, cfg, env, "%s%d" % (kind, ip[0]), exe_args, timeout, drv_env),
                             enumerate(parts)))
        nlines = sum(r["lines"] for r in rs)
        bad = [r for r in rs if r["bad"]]
        acts = {}
        for r in rs:
            for k, v in r["ops"].items():
                acts[k] = acts.get(k, 0) + v
        a = self.cov["actions"].setdefault(module, {})
        for k, v in acts.items():
            a[k] = a.get(k, 0) + v
        log("conformance %s (%s): %d episodes, %d events, %d rejected chunks" %
            (module, kind, len(episodes), nlines, len(bad)))
        if not bad:
            self.cov["traces_validated_against_impl"] += len(episodes)
            self.cov["events_validated"] += nlines
            self.cov["states"] += nlines
            self.cov["transitions"] += nlines
            if sample and len(self.cov["samples"]) < 4:
                self.cov["samples"].append(dict(kind=kind, script=episodes[len(episodes) // 2][:12]))
            return
        # confirm: the episode alone first, then the chunk
        for r in bad:
            ep = r["part"][r["episode"]]
            for what, eps in (("episode", [ep]), ("chunk", r["part"])):
                r2 = self._one(exe, eps, module, cfg, env, "confirm", exe_args, timeout, drv_env)
                if r2["bad"]:
                    self.violation(r2, eps, module, exe, env)
                    return
        raise CheckError("a rejection did not repeat:\n" + bad[0]["msg"])

    def _one(self, exe, part, module, cfg, env, tag, exe_args, timeout, drv_env):
        base = os.path.join(self.work, tag)
        script, trace = base + ".script", base + ".trace"
        starts = []
        with open(script, "w") as f:
            n = 0
            for ep in part:
                starts.append(n)
                for op in ep:
                    f.write(json.dumps(op, ensure_ascii=False) + "\n")
                    n += 1
        if os.path.exists(trace):
            os.unlink(trace)
        e = dict(os.environ); e.update(drv_env or {})
        try:
            p = subprocess.run([exe, script, trace] + list(exe_args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, cwd=self.work, env=e)
            rc, dout = p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, dout = "timeout", ""
        lines = 0
        ops = {}
        if os.path.exists(trace):
            with open(trace) as f:
                for ln in f:
                    lines += 1
                    m = re.match(r'\{"op":"(\w+)"', ln)
                    if m:
                        ops[m.group(1)] = ops.get(m.group(1), 0) + 1
        def ep_of(line):
            k = 0
            for i, s in enumerate(starts):
                if s <= line:
                    k = i
            return k
        res = dict(part=part, lines=lines, bad=False, msg="", episode=0, ops=ops, trace=trace, script=script)
        if rc == 77:
            raise CheckError("the driver could not run: %s" % dout[-3000:])
        if rc != 0 or lines != n:
            res.update(bad=True, episode=ep_of(min(lines, n - 1)),
                       msg="the program ended with %s after %d of %d operations; it had just been asked to do\n%s\n%s"
                       % (rc, lines, n, nth_line(script, lines), dout[-1500:]))
            return res
        ev = dict(env or {}); ev["TRACE"] = trace
        rc, out = run_tlc(module, cfg or module + ".cfg", env=ev, timeout=timeout, tag=self.pid + tag)
        if rc == 0 and "Model checking completed. No error has been found" in out:
            return res
        m = re.search(r'"REJECTED-AT", (\d+)', out)
        inv = re.search(r"Invariant (\w+) is violated", out)
        if m:
            at = int(m.group(1))
        elif inv:
            st = re.findall(r"^State (\d+):", out, re.M)
            at = int(st[-1]) - 1 if st else 1
        else:
            raise CheckError("TLC failed on a trace of %s (exit %s):\n%s" % (module, rc, out[-6000:]))
        mm = [x for x in out.splitlines() if "MISMATCH" in x]
        mi = out.find('"MISMATCH"')
        detail = out[mi - 4: mi + 2500] if mi >= 0 else (inv.group(0) if inv else "")
        res.update(bad=True, episode=ep_of(at - 1),
                   msg="line %d of the trace is not allowed by the specification:\n%s\n%s" % (at, nth_line(trace, at - 1)[:1500], detail))
        return res

    def violation(self, r, episodes, module, exe, env):
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        body = "\n".join(json.dumps(op, ensure_ascii=False) for ep in episodes for op in ep) + "\n"
        name = "%s-%s.jsonl" % (self.pid, hashlib.sha1(body.encode()).hexdigest()[:10])
        path = os.path.join(d, name)
        with open(path, "w") as f:
            f.write(body)
        with open(path + ".why", "w") as f:
            f.write("driver: %s SCRIPT TRACE\nspecification: spec/%s.tla (%s)\n%s\n" % (exe, module, env, r["msg"]))
        self.violations += 1
        log(r["msg"][:4000])
        log("VIOLATION property=%s replay=%s" % (self.pid, path))

    def finish(self):
        dt = time.time() - self.t0
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=self.cov, assumptions=self.assumptions, wall_s=round(dt, 1), violations=self.violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        log("%s %s: %s in %.0f s (states %d, traces %d)" % (self.pid, self.tier,
            "VIOLATED" if self.violations else "held", dt, self.cov["states"], self.cov["traces_validated_against_impl"]))
        return 1 if self.violations else 0

def nth_line(path, n):
    try:
        with open(path) as f:
            for i, ln in enumerate(f):
                if i == n:
                    return ln.strip()
    except OSError:
        pass
    return ""

def parse_scripts(out):
    """Lines  "SCRIPT [...json...]"  printed by a specification (TLC quotes the string)."""
    res = []
    for ln in out.splitlines():
        i = ln.find("SCRIPT ")
        if i < 0 or ln[:1] not in '"<S':
            continue
        if ln.startswith('"'):
            try:
                s = json.loads(ln)
            except ValueError:
                continue
            s = s[len("SCRIPT "):]
        else:
            s = ln[i + 7:]
        try:
            res.append(json.loads(s))
        except ValueError:
            pass
    return res

def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]
