#!/usr/bin/env python3
"""Run a shell command with the tools built from the current tree on PATH (all Linux and DOS libraries installed)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vt.build import Build
b = Build()
b.inst(("lcl", "lcds", "lcdh", "lcdu"))
e = dict(os.environ); e.update(b.env())
os.execvpe("bash", ["bash", "-c", " ".join(sys.argv[1:])], e)
