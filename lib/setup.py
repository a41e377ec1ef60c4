"""Builds the harnesses once (every check rebuilds what changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from lib import build
for v in ("asan",):
    print(build.runner(v))
