#!/usr/bin/env python3
"""run.py <property id> [--thorough]: runs one check."""
import importlib.util, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
spec = importlib.util.spec_from_file_location("chk", os.path.join(HERE, "checks", sys.argv[1] + ".py"))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
