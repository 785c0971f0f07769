#!/usr/bin/env python3
"""Builds the exporter and fills the parse cache (offline)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import prog
p = prog.Program()
print("parsed %d files, %d functions" % (len(p.tus), len(p.fns)))
