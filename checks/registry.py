"""Which function decides which property; which builds the set-up prepares."""
import importlib, os, glob
CHECKS, BUILDS = {}, []
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c_*.py"))):
    m = importlib.import_module(os.path.basename(f)[:-3])
    CHECKS.update(m.CHECKS)
    BUILDS += m.BUILDS
