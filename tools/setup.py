#!/usr/bin/env python3
"""Builds the analysis front ends (checks also do this on demand)."""
import glob, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import prog
for s in sorted(glob.glob(os.path.join(V, 'tool', '*.cpp'))):
    print(prog.build_tool(os.path.basename(s)[:-4]))
