"""The tree's own sample programs, as raw material for workloads (never as an oracle)."""
import glob, os
from . import build

_cache = None


def programs():
    """[(name, source bytes)] sorted by name."""
    global _cache
    if _cache is None:
        fs = sorted(glob.glob(os.path.join(build.REPO, "test", "inputs", "**", "*.yasl"), recursive=True)
                    + glob.glob(os.path.join(build.REPO, "test", "errors", "**", "*.yasl"), recursive=True))
        _cache = [(os.path.relpath(f, build.REPO), open(f, "rb").read()) for f in fs]
    return _cache


def expected(name):
    """(stdout bytes or None, stderr bytes or None) recorded beside a corpus program."""
    f = os.path.join(build.REPO, name)
    o = open(f + ".out", "rb").read() if os.path.exists(f + ".out") else None
    e = open(f + ".err", "rb").read() if os.path.exists(f + ".err") else None
    return o, e
