#!/usr/bin/env python3
"""Builds the watched tools once, so that the first check finds them (every check rebuilds them if the source differs)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core
try:
    for v in core.VARIANTS: print(v, core.build(v))
except core.BuildError as e:
    print("the tools do not build: %s" % e); sys.exit(1)
