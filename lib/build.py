"""Builds a driver together with the sources of /repo it needs, from /repo's current working tree.

Nothing is written into /repo.  Objects go to /verif/build/<driver>/ and are always rebuilt
(through ccache, which keys on the preprocessed content, when it is installed)."""
import os, subprocess, shutil, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JDK = "/usr/lib/jvm/java-17-openjdk-amd64/include"

LATTICE = """common/lattice.cpp common/annotation_item.cpp common/annotation_item_manager.cpp
common/layer_tag_collection.cpp common/layer_tag_manager.cpp common/layer_tag_mask.cpp
common/string_frag.cpp common/zvalue.cpp common/string_helpers.cpp common/psi_exception.cpp common/cutter.cpp
common/logging.cpp""".split()

CONFIG = """#ifndef CONFIG_HDR
#define CONFIG_HDR
#define HAVE_JAVA 0
#define HAVE_PCRE 1
#define HAVE_RE2 0
#define HAVE_CMPH 1
#define HAVE_LOG4CPP %d
"""

class BuildError(Exception):
    pass

def flags(incs, extra=()):
    f = ("-std=gnu++14 -g0 -O0 -w -include iostream -include algorithm "
         "-DBOOST_TIMER_ENABLE_DEPRECATED -DPSI_VERIF").split()
    f += ["-I" + REPO, "-I" + os.path.join(BUILD, "include")]
    f += ["-I" + os.path.join(REPO, d) for d in ["common", "fex/fex", "tiniconv", "uchardet/src"] + list(incs)]
    f += ["-I" + JDK, "-I" + JDK + "/linux", "-I" + os.path.join(VERIF, "drivers")]
    return f + list(extra)

def ensure_config():
    """common/config.hpp is generated by cmake and ignored by git; use it when present."""
    inc = os.path.join(BUILD, "include")
    os.makedirs(inc, exist_ok=True)
    if not os.path.exists(os.path.join(REPO, "common/config.hpp")):
        src = os.path.join(VERIF, "lib", "config.hpp")
        shutil.copyfile(src, os.path.join(inc, "config.hpp"))

def compile_one(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, " ".join(cmd) + "\n" + p.stdout

def build(name, driver, sources, incs=(), libs=(), extra=(), driver_extra=()):
    """Returns the path of the executable; raises BuildError."""
    ensure_config()
    out = os.path.join(BUILD, name)
    os.makedirs(out, exist_ok=True)
    cc = (["ccache"] if shutil.which("ccache") else []) + ["g++"]
    env = os.environ
    env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    env.setdefault("CCACHE_SLOPPINESS", "time_macros")
    env["CCACHE_MAXSIZE"] = "2G"
    jobs, objs = [], []
    for s in sorted(set(sources)):
        o = os.path.join(out, s.replace("/", "__") + ".o")
        objs.append(o)
        if s.endswith(".c"):
            jobs.append(cc[:-1] + ["gcc", "-g0", "-O0", "-w", "-c", os.path.join(REPO, s), "-o", o])
        else:
            jobs.append(cc + flags(incs, extra) + ["-c", os.path.join(REPO, s), "-o", o])
    drivers = [driver] if isinstance(driver, str) else list(driver)
    for d in drivers:
        o = os.path.join(out, "drv_" + os.path.basename(d) + ".o")
        objs.append(o)
        jobs.insert(0, cc + flags(incs, list(extra) + list(driver_extra)) + ["-c", os.path.join(VERIF, "drivers", d), "-o", o])
    # biggest first
    jobs.sort(key=lambda c: -os.path.getsize(c[-3]))
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        for rc, log in ex.map(compile_one, jobs):
            if rc:
                raise BuildError(log)
    exe = os.path.join(out, name)
    cmd = ["g++", "-o", exe] + objs + ["-l" + l for l in libs]
    rc, log = compile_one(cmd)
    if rc and "undefined reference" in log:
        # the sources may have come to need other files of common/: offer all that compile as an archive
        more = [s for s in sorted(os.listdir(os.path.join(REPO, "common"))) if s.endswith(".cpp")
                and "common/" + s not in sources and s not in ("main.cpp",)]
        jobs, extra_objs = [], []
        for s in more:
            o = os.path.join(out, "more__" + s + ".o")
            extra_objs.append(o)
            jobs.append(cc + flags(incs, extra) + ["-c", os.path.join(REPO, "common", s), "-o", o])
        with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            rcs = list(ex.map(compile_one, jobs))
        ar = os.path.join(out, "libmore.a")
        if os.path.exists(ar):
            os.unlink(ar)
        compile_one(["ar", "rcs", ar] + [o for o, (r, _) in zip(extra_objs, rcs) if r == 0])
        rc2, log2 = compile_one(["g++", "-o", exe] + objs + [ar] + ["-l" + l for l in libs])
        if rc2 == 0:
            return exe
    if rc:
        raise BuildError(log)
    return exe
