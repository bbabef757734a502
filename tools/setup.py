#!/usr/bin/env python3
"""Build the harnesses once and check that the toolchain answers (checks rebuild what they need themselves)."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib.core import *
for h in sorted(f[:-2] for f in os.listdir(HARNESS) if f.startswith("h_") and f.endswith(".c")):
    build_harness(h, wrap=tuple(dict.fromkeys(re.findall(r"__wrap_(\w+)", open(f"{HARNESS}/{h}.c").read()))))
print("setup done")
