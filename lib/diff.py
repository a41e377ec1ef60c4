"""Differential driver: the reference model against the interpreter, over generated programs."""
import os, random, sys, time
from . import work, yaslref as R

sys.setrecursionlimit(20000)
REFBUDGET = 20000


def mismatch(o, r, trace=True):
    """None, or how Result r deviates from Outcome o."""
    if r.san:
        return "memory", r.san
    if r.timeout:
        return "hang", "no end within the CPU limit (the reference ends after %d steps)" % o.steps
    if r.oom:
        return None
    if r.code != o.code:
        return "status", "exit status %s, expected %d (%s)" % (r.code, o.code, (o.kind or b"success").decode())
    got = R.canon(r.out)
    if got != o.out:
        return "output", diff_out(o.out, got)
    if o.code == 4:
        if not r.err.strip():
            return "diagnostic", "rejected without a diagnostic"
        if r.out:
            return "output", "printed before being rejected"
        return None
    if o.code and trace:
        k, line, tr = R.parse_err(r.err)
        if k != o.kind:
            return "kind", "error kind %s, expected %s" % (k, o.kind)
        if not o.lines_ok(line, o.trace):
            return "line", "reported on line %s, expected %s" % (line, o.line)
        if not o.lines_ok(line, tr):
            return "trace", "call lines %s, expected %s" % (tr, o.trace)
    if not o.code and r.err:
        return "stderr", "success with diagnostics: %r" % r.err[:100]
    return None


def diff_out(a, b):
    la, lb = a.split(b"\n"), b.split(b"\n")
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return "output line %d is %r, expected %r" % (i + 1, y[:200], x[:200])
    return "output has %d lines, expected %d" % (len(lb), len(la))


def reference(src, budget=REFBUDGET, args=(b"p.yasl",), **kw):
    """Outcome, or the reason (str) why the reference says nothing."""
    try:
        return R.run(src, budget, args=args, **kw)
    except R.Unspec as e:
        return str(e)
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            raise
        return "model: %s" % type(e).__name__


def compare(src, server=None, budget=REFBUDGET, leaks=False, trace=True, want=None, cpu=2, files=None):
    """(status, detail, outcome, result): status 'ok', 'skip' or a mismatch class."""
    if leaks:
        R.MADE = []
    try:
        o = reference(src, budget)
        cyc = leaks and R.cyclic(R.MADE)
    finally:
        R.MADE = None
    if isinstance(o, str):
        return "skip", o, None, None
    if want is not None and not want(o):
        return "skip", "unwanted", o, None
    s = server or work.server()
    r = s.prog(src, cpu=cpu, files=files)
    m = mismatch(o, r, trace)
    if m:
        return m[0], m[1], o, r
    if leaks and r.done and r.blocks and not cyc:
        return "leak", "%d blocks (%d bytes) not released" % (r.blocks, r.bytes), o, r
    return "ok", "", o, r


def reduce(src, status, check, limit=150, secs=20):
    """Fewer lines with the same kind of mismatch, within a time."""
    end = time.monotonic() + secs
    lines = src.split(b"\n")
    n = 0
    step = max(1, len(lines) // 2)
    while step >= 1 and n < limit and time.monotonic() < end:
        i = 0
        changed = False
        while i < len(lines) and n < limit and time.monotonic() < end:
            cand = lines[:i] + lines[i + step:]
            n += 1
            try:
                st = check(b"\n".join(cand))
            except Exception:
                st = None
            if st == status:
                lines = cand
                changed = True
            else:
                i += step
        if not changed or step > 1:
            step //= 2
    return b"\n".join(lines)


def case(src, **kw):
    """Body of a worker function: compare, reduce on mismatch, pack the result."""
    st, detail, o, r = compare(src, **kw)
    info = {}
    if o is not None and r is not None:
        info["exit %d" % o.code] = 1
        info["bytes of output compared"] = len(o.out)
        info["reference steps"] = o.steps
    if st not in ("ok", "skip"):
        small = reduce(src, st, lambda s: compare(s, **kw)[0])
        if small != src:
            st2, d2, o2, r2 = compare(small, **kw)
            if st2 == st:
                src, detail, o, r = small, d2, o2, r2
        tail = b"\n# ---- expected ----\n" + b"status %d %s line %s trace %s\n" % (
            o.code, o.kind or b"", str(o.line).encode(), str(o.trace).encode()) + o.out[-1500:] + \
            b"\n# ---- observed ----\n" + b"status %s\n" % str(r.code).encode() + r.out[-1500:] + b"\n# stderr\n" + r.err[-3000:]
        return st, detail, src, info, tail
    return st, detail, src, info, b""
