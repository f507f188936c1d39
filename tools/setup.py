#!/usr/bin/env python3
"""Builds the toolchain, the libraries and the sanitizer builds once, so that the checks find them ready."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt.build import Build, BuildError
b = Build()
try:
    b.inst(("lcl", "lcds", "lcdh", "lcdu", "lcdp", "lcw", "lcm"), stub=True)
    b.san_tools()
except BuildError as e:
    print("setup:", e)      # the checks will say so
print("built in", b.root)
