#!/usr/bin/env python3
"""check.py Cxx: runs the check of one property (VERIF_SEED, VERIF_TIER). Exit 0 held, 1 violated, 2 no verdict."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib.build import BuildError

if __name__ == "__main__":
    prop = sys.argv[1].upper()
    if "--thorough" in sys.argv: os.environ["VERIF_TIER"] = "thorough"
    try:
        sys.exit(importlib.import_module("checks." + prop.lower()).run())
    except BuildError as e:
        print("cannot build: %s" % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
