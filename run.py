#!/usr/bin/env python
"""run.py <ID> [--case SECTION INDEX|--section SECTION]"""
import sys, os, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("QV_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter("ignore")
from mon import core

def main():
    prop = sys.argv[1]
    only = None
    if "--case" in sys.argv:
        i = sys.argv.index("--case"); only = (sys.argv[i + 1], int(sys.argv[i + 2]))
    if "--section" in sys.argv:
        i = sys.argv.index("--section"); only = (sys.argv[i + 1], None)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("mon." + prop.lower())
    sys.exit(core.run_check(prop, mod, seed, tier, only))

if __name__ == "__main__":
    main()
