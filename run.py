#!/usr/bin/env python3
"""run.py <property> [--thorough]: run one check."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
importlib.import_module("checks." + sys.argv[1])
