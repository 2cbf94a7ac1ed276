#!/usr/bin/env python3
"""seed.py verify ID...   applies a planted bug to /repo, builds, runs the stable tests, the demo and the
property's quick check, and undoes it.  (seed.py demo0 ID: the demo on the unchanged tree.)"""
import json, os, subprocess, sys
V = "/verif"; R = "/repo"
def sh(cmd, **k):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
    return p.returncode, p.stdout
def clean():
    assert sh("git -C %s status --porcelain -uno" % R)[1].strip() == "", "dirty /repo"
def demo(i):
    return sh("bash %s/seeded/%s/demo.sh" % (V, i), cwd=R, timeout=300)
def tests():
    rc, out = sh("bash /opt/vp/test.sh /tmp/o.json")
    if rc: return "build/test failed\n" + out[-2000:]
    o = json.load(open("/tmp/o.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    miss = set(st) - set(o["passed"])
    return "" if not miss else "tests fail: %s" % sorted(miss)[:5]
mode, ids = sys.argv[1], sys.argv[2:]
res = {}
for i in ids:
    d = "%s/seeded/%s" % (V, i)
    prop = json.load(open(d + "/meta.json"))["property"]
    clean()
    if mode == "verify":
        rc0, o0 = demo(i)
    try:
        assert sh("git -C %s apply %s/patch.diff" % (R, d))[0] == 0, "patch"
        line = [i, prop]
        if mode in ("verify", "tests"):
            t = tests()
            line.append("tests:" + (t or "ok"))
            rc1, o1 = demo(i)
            line.append("demo:%s->%s" % (rc0, rc1))
            if rc0: print(o0[-1500:])
            if rc1 == 0: print(o1[-1500:])
        rc, o = sh("python3 check.py %s quick" % prop, cwd=V)
        line.append("check:%s%s" % (rc, " CAUGHT" if rc == 1 and "VIOLATION property=" + prop in o else " MISSED"))
        if rc not in (0, 1): print(o[-1500:])
        print(" ".join(line), flush=True)
        rp = V + "/tools/seed_results.json"
        r = json.load(open(rp)) if os.path.exists(rp) else {}
        r[i] = prop + " quick" if rc == 1 and "VIOLATION property=" + prop in o else "missed"
        json.dump(r, open(rp, "w"), indent=1, sort_keys=True)
    finally:
        sh("git -C %s checkout -- ." % R)
if mode == "verify": sh("bash /opt/vp/build.sh")
