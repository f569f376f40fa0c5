#!/usr/bin/env python3
"""Builds all variants of the programs from /repo (checks do the same on demand)."""
import os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, '.')
sys.dont_write_bytecode = True
from vlib import build
for k, v in [('sclite', 'plain')]:
    try:
        build.get(k, v)
    except build.BuildError as e:
        print('build failed', k, v, e)
print('ok')
