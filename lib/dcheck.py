"""Checks that compare generated programs with the reference model."""
import importlib.util, os, random
from . import check, diff, embed, work

_gens = {}
EMBEDDED = ", embedded"      # the generator's programs, put into a context of lib/embed.py
SHARE = 0.25


def _one(item):
    name, seed = item
    within = name.endswith(EMBEDDED)
    g = _gens[name[:-len(EMBEDDED)] if within else name]
    r = random.Random(seed)
    made = g[2](r)
    kw = dict(g[3]) if len(g) > 3 else {}
    if isinstance(made, tuple):
        made, extra = made
        kw.update(extra)
    if within:
        if callable(made):
            return name, "skip", "not a program", b"", {}, b""
        made, kw = embed.embed(r, made), embed.budget(kw)
    if callable(made):
        res = made()
    else:
        res = diff.case(made, **kw)
    return (name,) + res


def embeddable(gen):
    made = gen(random.Random(1))
    return isinstance(made[0] if isinstance(made, tuple) else made, bytes)


def explore(c, gens):
    """gens: {name: (quick cases, thorough cases, fn(rng) -> source, compare options)}."""
    _gens.clear()
    _gens.update(gens)
    items = []
    for name, g in gens.items():
        for i in range(c.n(g[0], g[1])):
            items.append((name, "%s/%d/%s/%d" % (c.pid, c.seed, name, i)))
        if embeddable(g[2]):
            for i in range(int(c.n(g[0], g[1]) * SHARE)):
                items.append((name + EMBEDDED, "%s/%d/%s/e%d" % (c.pid, c.seed, name, i)))
    random.Random(c.seed).shuffle(items)
    failed = 0
    for name, st, detail, src, info, tail in work.pmap(_one, items, chunk=8):
        for k, v in info.items():
            c.count(k, v)
        if st == "skip" and detail.startswith("model"):
            failed += 1
            if failed > 20 + len(items) // 50:
                raise RuntimeError("the reference failed too often: generator %s: %s\n%s" % (name, detail, src[:2000].decode("latin-1")))
        if st == "skip":
            c.count("skipped, " + detail.split(":")[0][:30])
            continue
        c.count("compared, " + name)
        c.observe(src, True)
        if st != "ok":
            c.violation(src.decode("latin-1"), "%s (%s): %s" % (st, name, detail), src + tail)


_collected = None


def collect(pid):
    """The generators of another check."""
    global _collected
    _collected = {}
    spec = importlib.util.spec_from_file_location("chk" + pid, os.path.join(check.VERIF, "checks", pid + ".py"))
    m = importlib.util.module_from_spec(spec)
    try:
        spec.loader.exec_module(m)
        return _collected
    finally:
        _collected = None


def main(pid, rule, gens, min_cases=500, extra=None):
    if _collected is not None:
        _collected.update(gens)
        return
    def fn(c):
        explore(c, gens)
        if extra:
            extra(c)
    check.main(pid, rule, fn, min_cases)
