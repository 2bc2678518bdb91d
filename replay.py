#!/usr/bin/env python3
"""Runs a recorded counterexample on the real code: replay.py evidence/replay/H01-1.txt"""
import re, sys
sys.path.insert(0, __file__.rsplit('/', 1)[0] or '.')
from vlib import build, run
p = sys.argv[1]
h = re.search(r'^harness (\S+)', open(p).read(), re.M).group(1)
rc, out = run.run_native(build.native([h])[h], p)
print(out)
print('exit', rc)
