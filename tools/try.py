#!/usr/bin/env python3
"""try.py TARGET MODULE.FUNCTION|sem COUNT [PER]: runs a generator of a check on a target it may not be registered for."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import core, prog, sem, targets
target, fn, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
per = int(sys.argv[4]) if len(sys.argv) > 4 else 10
c = core.Check("TRY")
c.b.inst((targets.TARGETS[target].lib,))
if fn == "sem":
    sem.explore(c, target, n, [{}, {"gen": {"big": .5, "fns": 8}}, {"gen": {"agg": .9}}], per)
else:
    m, f = fn.split(".")
    prog.explore(c, target, ["%s-%d" % (target, i) for i in range(n)] if m not in ("c23", "c25", "c28") else range(n), getattr(importlib.import_module("checks." + m), f), per=per)
print(target, fn, "cases", c.evals, "inconclusive", c.inconclusive, c.cov)
for k, w, r in c.viol[:6]:
    print(k, "|", w[:300], r)
