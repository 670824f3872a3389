#!/usr/bin/env python3
"""Checks that the tools the analysis needs are present (nothing to build)."""
import subprocess, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'engine'))
sys.setrecursionlimit(20000)
for c in (['clang++-18', '--version'], ['opt-18', '--version']):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
import llvmc, interp, models, threads, witness
print('ok')
