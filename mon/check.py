#!/usr/bin/env python3
"""check.py <property> [--case family:index] [--family name] [--thorough] [-v]   (VERIF_SEED, VERIF_TIER)"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import core
if __name__ == "__main__":
    prop = sys.argv[1].upper()
    sys.exit(core.main(prop, importlib.import_module("props." + prop.lower()), sys.argv[2:]))
