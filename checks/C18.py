"""C18: no input makes the interpreter corrupt memory or execute undefined behaviour."""
import random
from lib import check, soup, work

KINDS = {"mutate": soup.mutate, "chain": soup.chain, "reenter": soup.reenter, "soup": soup.soup, "noise": soup.noise}
OK = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
FILES = {"s.txt": b"line one\nline two\n\0\xff", "m.yasl": b"export {.a: 1}\n", "bad.yasl": b"export (\n"}


def one(item):
    kind, seed = item
    r = random.Random(seed)
    src = KINDS[kind](r)
    mode = "file" if r.random() < 0.8 else r.choice(["-C", "-e", "-E"])
    if mode in ("-e", "-E") and b"\0" in src:
        mode = "file"
    s = work.server()
    res = s.prog(src, files=FILES, stdin=b"in one\nin two\n", cpu=1, mode=mode, retry=False)
    bad = None
    if res.san:
        bad = res.san
    elif mode == "-C" and res.hung and s.prog(src, cpu=20, mode=mode, retry=False).hung:
        bad = "compiling does not end"
    elif not res.timeout and not res.oom and res.code not in OK:
        bad = "undefined exit status %s" % res.code
    return kind, mode, src, bad, res.code, res.timeout or res.oom, res.err[-5000:] if bad else b"", len(res.out)


def fn(c):
    n = c.n({"mutate": 7000, "chain": 11000, "reenter": 6000, "soup": 1500, "noise": 1500},
            {"mutate": 250000, "chain": 300000, "reenter": 250000, "soup": 30000, "noise": 40000})
    items = [(k, "C18/%d/%s/%d" % (c.seed, k, i)) for k in n for i in range(n[k])]
    random.Random(c.seed).shuffle(items)
    for kind, mode, src, bad, code, inc, err, no in work.pmap(one, items, chunk=16):
        c.count("runs_" + kind)
        c.count("status_%s" % code if not inc else "inconclusive_resource_limit")
        c.observe(mode.encode() + src, not inc)
        if bad:
            c.violation("%s|%s" % (bad[:80], src[:2000].decode("latin-1")), "%s (%s)" % (bad, mode),
                        src + b"\n# ---- report ----\n" + err)


check.main("C18", "source bytes: corpus files mutated by byte, token, line and splice edits; chains of 1-5 built-in "
           "operations with hostile operands on one object; operations that call functions which change what is worked on; token soup; byte noise; run as file, -C, -e or -E under "
           "ASan+UBSan. A case counts when it ran to an exit status without hitting the CPU or memory cap.", fn, 500)
