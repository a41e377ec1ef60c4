"""Parallel map over worker processes, each with its own fork server."""
import multiprocessing as mp, os, signal
from . import build, runner

_srv = {}
_fn = None


def server(variant="asan"):
    """This worker's fork server."""
    if variant not in _srv:
        _srv[variant] = runner.Server(build.runner(variant))
    return _srv[variant]


def _init(fn):
    global _fn
    _fn = fn
    _srv.clear()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from multiprocessing import util
    util.Finalize(None, _close, exitpriority=10)


def _close():
    for s in _srv.values():
        s.close()


def _run(item):
    return _fn(item)


def pmap(fn, items, n=8, chunk=8, variants=("asan",)):
    """Yields fn(item) in order.  fn runs in worker processes (forked)."""
    for v in variants:
        build.runner(v)
    ctx = mp.get_context("fork")
    pool = ctx.Pool(n, _init, (fn,))
    try:
        for r in pool.imap(_run, items, chunk):
            yield r
        pool.close()
        pool.join()
    finally:
        pool.terminate()
