#!/usr/bin/env python3
"""setup_cmd: builds the sanitizer variants and the drivers once, so that a broken tool chain shows early."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from lib import vlib
for v in ("asan", "tsan"):
    va = vlib.Variant(v).build()
    va.driver("agent.c")
    print("built", v)
