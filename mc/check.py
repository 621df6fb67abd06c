#!/usr/bin/env python3
"""python3 mc/check.py C01 : runs the check of one property (tier from VERIF_TIER or a second argument)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import core
core.main_guard(importlib.import_module(sys.argv[1].lower()).main)
