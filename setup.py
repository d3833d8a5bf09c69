#!/usr/bin/env python3
"""Builds the extractor and parses /repo once (the checks do the same lazily)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from sa.front import Prog
P = Prog('default')
print('functions: %d, parse %.1f s' % (len(P.fns), P.load_s))
