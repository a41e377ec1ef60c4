"""C17: layout and spelling that carry no meaning change nothing."""
from lib import corpus, dcheck, diff, gen, relay, work, yaslparse

KINDS = ["layout", "ends", "spelling", "parens", "names"]
PROGS = [s for _, s in corpus.programs()]


def compare(base, kinds, seed, p):
    """Runs base and a rewriting of it."""
    import random
    s = work.server()
    a = s.prog(base, cpu=2)
    if a.timeout or a.oom or b"<fn:" in a.out or b"0x" in a.out and b"0x" not in base:
        return "skip", "base: not comparable", None, None, None
    if a.code == 4:
        kinds = [k for k in kinds if k not in ("parens", "names")]
    try:
        v = relay.Rewriter(random.Random(seed), kinds, p).do(base)
    except (yaslparse.Reject, ValueError, RecursionError):
        return "skip", "base: not tokenised", None, None, None
    b = s.prog(v, cpu=4)
    if a.san or b.san:
        return "memory", a.san or b.san, v, a, b
    if a.code != b.code:
        return "status", "status %s became %s" % (a.code, b.code), v, a, b
    if a.out != b.out:
        # a program that is not deterministic is no evidence
        c = s.prog(base, cpu=2)
        if c.out != a.out:
            return "skip", "base: not deterministic", None, None, None
        return "output", diff.diff_out(a.out, b.out), v, a, b
    return "ok", "", v, a, b


def case(base, r):
    kinds = [k for k in KINDS if r.random() < 0.7] or ["layout"]
    if r.random() < 0.3:
        kinds = [r.choice(KINDS)]
    seed, p = r.random(), r.choice([0.1, 0.3, 0.6, 0.9])

    def run():
        st, detail, v, a, b = compare(base, kinds, seed, p)
        if st == "skip":
            return st, detail, base, {}, b""
        info = {"exit %s" % a.code: 1, "bytes of output compared": len(a.out), "rewritten bytes": len(v)}
        for k in kinds:
            info["rewriting " + k] = 1
        if st == "ok":
            return st, detail, v, info, b""
        small = diff.reduce(base, st, lambda s: compare(s, kinds, seed, p)[0])
        st2, d2, v2, a2, b2 = compare(small, kinds, seed, p)
        if st2 == st:
            base_, detail, v, a, b = small, d2, v2, a2, b2
        else:
            base_ = base
        tail = b"\n# ---- rewritten (%s) ----\n" % ",".join(kinds).encode() + v + b"\n# ---- first ----\n" + a.out[-1500:] + b"\n" + a.err[-1500:] + \
            b"\n# ---- second ----\n" + b.out[-1500:] + b"\n" + b.err[-2500:]
        return st, detail, base_, info, tail
    return run


def fromgen(r):
    w = {k: r.choice([0, 1, 3, 8]) for k in gen.DEFAULT}
    w.update(echo=8, let=5, block=0)
    return case(gen.program(r, w, budget=30, perr=r.choice([0, 0, 0.005]), depth=3), r)


def fromcorpus(r):
    return case(r.choice(PROGS), r)


dcheck.main("C17", "distinct rewritings (layout, statement ends, literal spelling, parentheses, names) whose output and status equal the original's",
            {"generated": (3000, 100000, fromgen), "corpus": (3000, 100000, fromcorpus)})
