#!/usr/bin/env python3
"""check.py ID: runs the check of one property (VERIF_SEED, VERIF_TIER from the environment)."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("PYTHONHASHSEED", "0")
if __name__ == "__main__":
    from vt import core
    pid = sys.argv[1].upper()
    mod = importlib.import_module("checks." + pid.lower())
    sys.exit(core.main(pid, mod.check, getattr(mod, "LEVEL", "exploration")))
