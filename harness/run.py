import argparse, importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import common

MODULES = {}
here = os.path.dirname(os.path.abspath(__file__))
for fn in sorted(os.listdir(here)):
    if fn[0] == "c" and fn[1:4].isdigit() is False and fn[1:3].isdigit() and fn.endswith(".py"):
        MODULES["C" + fn[1:3]] = fn[:-3]

ap = argparse.ArgumentParser()
ap.add_argument("prop", nargs="?")
ap.add_argument("--setup", action="store_true")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
ap.add_argument("--replay")
a = ap.parse_args()
if a.setup:
    import tempfile
    d = tempfile.mkdtemp(prefix="vp-setup-")
    try:
        common.build(d)
        print("setup: built")
        sys.exit(0)
    finally:
        common.rmtree(d)
mod = importlib.import_module(MODULES[a.prop])
try:
    sys.exit(common.run_property(mod, a.tier, a.seed, a.replay))
except common.HarnessError as e:
    print("ERROR:", e, file=sys.stderr)
    sys.exit(2)
