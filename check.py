#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] : decides one property; see DESIGN.md."""
import os, sys, importlib, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import vcommon, build

def main():
    pid = sys.argv[1]
    if pid == "--setup":        # warms the compiler cache; the checks work without it
        import setup_build
        return setup_build.main()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    c = vcommon.Check(pid, tier, seed)
    try:
        import registry
        registry.CHECKS[pid](c)
    except vcommon.CheckError as e:
        print("CHECK-ERROR", e); return 2
    except build.BuildError as e:
        print("BUILD-ERROR", str(e)[-6000:]); return 2
    except Exception:
        traceback.print_exc(); return 2
    return c.finish()

if __name__ == "__main__":
    sys.exit(main())
