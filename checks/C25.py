"""C25: captured output is what would have been printed, from the point where capturing starts, on any history."""
import os, random, re, zlib
from lib import api, check, corpus, gen, soup, work

PROGS = [s for _, s in corpus.programs() if not re.search(rb"rand|shuffle|stdin|clock|require|mt\.|__|export|io\.|0x|global", s)]
ADDR = re.compile(rb"<[\w.]+: -?\d+>|0x[0-9a-f]{5,}")
ERRS = ["1 + 'a'", "-'%s%n%d'", "assert false", "undef()", "[1][5]", "let bad = [1", "echo (", "nosuchname", "nosuch%s = 4", "break", "fn q( {", "'abc", "let let = 1", "1 // 0", "const k = 1; k = 2", "let v = 1; let v = 2",
        "fn w(n) { return n == 0 ? -'deep' : w(n - 1) + 1; }; echo w(30)", "for x <- 5 { echo x; }", "[3, 1, 'a']->sort()", "echo 5; )", "'%d'->nope()", "{[]: 1}", "echo 1.5.5", "'\\q'", "require('no%smodule')", "require('m0')", "require('m1')",
        "require('m2')", "fn f(n) { return f(n + 1) + 1; }; f(0)", "error('%n')", "''->split('')", "[]->pop()", "'a'->rep(-1)", "collections.set([])"]
MODS = {"m0": "echo 'in m0'\nexport 5\n", "m1": "echo 'in m1'\necho -'m1'\n", "m2": "echo 'in m2'\nlet x =\n", "m3": "echo 'in m3'\nexport fn(f) {\necho 'from m3'\nf()\necho 'm3 again'\n-[]\n}\n", "m4": "let a = require('m3')\necho 'm4'\nexport a\n"}


def text(r):
    """A line of output."""
    w = r.random()
    if w < 0.3:
        return "echo '%s'" % r.choice(["", " ", "plain", "%s%s%n", "100%", "%d %f %*s", "%%", "a%", "\\t\\\\", "\\0x\\0", "{}", "\\n\\n", "yasl> "])
    if w < 0.4:
        return "echo %s" % r.choice(["1", "-5", "1.5", "1e300", "true", "undef", "[1, ['a', 2.5]]", "{.a: '%s'}", "'a'->rep(3)", "[]", "{}"])
    if w < 0.5:
        return "echo '%s'" % "".join("\\x%02x" % r.choice([1, 2, 9, 10, 13, 27, 37, 65, 127, 128, 160, 200, 255, r.randint(1, 255)]) for _ in range(r.choice([1, 5, 40])))
    if w < 0.6:
        return "echo '%s'->rep(%d)" % (r.choice(["ab%%c", "a\\0", "\\0ab%%", "a\\0\\n"]), r.choice([1, 20, 255, 256, 1023, 1024, 4095, 4096, 4097, 20000]))
    if w < 0.7:
        return "for let i%d = 0; i%d < %d; i%d += 1 {\necho i%d\n}" % ((lambda k: (k, k, r.choice([1, 5, 100, 600]), k, k))(r.randint(0, 10 ** 6)))
    if w < 0.85:
        return "h%d()" % r.randint(0, 3)
    if w < 0.9:
        return "io.stdout->write('direct\\n')"
    if w < 0.95:
        return "echo require('%s') ~ ''" % r.choice(["m0", "m3"]) if r.random() < 0.3 else "let mod%d = require('%s')" % (r.randint(0, 10 ** 6), r.choice(["m0", "m3", "m4"]))
    return "(require('m3'))(h%d)" % r.randint(0, 3) if r.random() < 0.5 else "require('m0')"


def source(r):
    w = r.random()
    if w < 0.12:
        return r.choice(ERRS).encode() + b"\n"
    if w < 0.7:
        t = [text(r) for _ in range(r.randint(1, 8))]
        if r.random() < 0.35:
            t.append(r.choice(ERRS))
        return ("\n".join(t) + "\n").encode()
    if w < 0.8:
        return r.choice(PROGS)
    if w < 0.9:
        return gen.program(r, budget=20, perr=0.02, depth=2)
    p = soup.mutate(r)
    return b"echo 1\n" if re.search(rb"rand|shuffle|stdin|clock|global|\0", p) or len(p) > 20000 else p


def events(r, nested):
    """Commands around the capture, possibly inside a host function."""
    out = []
    for _ in range(r.randint(1, 4)):
        w = r.random()
        if w < 0.3:
            out.append(r.choice(["capout", "caperr"]))
        elif w < 0.75:
            out.append(r.choice(["loadout", "loaderr"]))
        elif nested and w < 0.83:
            out.append("throw %d %s" % (r.choice([2, 5, 7]), r.choice(["thrown", "%d%n", "100%", "x" * 300])))
            break
        else:
            out.append("say hello")
    return out


def history(r):
    """[(state, command)] and the bodies of the host functions."""
    ns = r.choice([1, 1, 2, 3])
    fns = [events(r, True) for _ in range(4)]
    steps = []
    for _ in range(r.randint(2, 14)):
        k = r.randrange(ns)
        if r.random() < 0.35:
            for e in events(r, False):
                steps.append((k, e))
        else:
            steps.append((k, "reset %s" % api.hexs(source(r))))
            steps.append((k, r.choice(["exec", "exec", "exec", "repl", "compile"])))
    for k in range(ns):
        steps += [(k, "loadout"), (k, "loaderr")]
    return ns, fns, steps


def script(ns, fns, steps, capture):
    n = [0]
    L = []

    def emit(k, cmd, nested, pre=""):
        w = cmd.split(" ")[0]
        L.append(pre + "both %s.%s.%s" % ("n" if nested else k, w, n[0]))
        n[0] += 1
        if w in ("capout", "caperr"):
            if capture:
                L.append(pre + cmd)
        elif w in ("loadout", "loaderr"):
            if capture:
                L.append(pre + cmd)
                L.append(pre + "popsum")
        else:
            L.append(pre + cmd)
        if nested:
            L.append("both n.after.%d" % n[0])
    for i, f in enumerate(fns):
        L.append("def %d" % i)
        for e in f:
            emit(None, e, True)
        L.append("undef")
        L.append("ret 1")
        L.append("end")
    for k in range(ns):
        L += ["%d new -" % k, "%d libs" % k]
        for i in range(len(fns)):
            L += ["%d decl h%d" % (k, i), "%d cfn %d 0" % (k, i), "%d setg h%d" % (k, i)]
    for k, c in steps:
        emit(k, c, False, "%d " % k)
    for k in range(ns):
        L.append("%d both %d.del.x" % (k, k))
        L.append("%d del" % k)
    L.append("0 blocks")
    return "\n".join(L) + "\n"


MARK = re.compile(rb"@@((?:n|\d+)\.[\w.]+)\n")
OWN = re.compile(rb"(?:exec|repl|compile|reset|resetf|del|blocks) -?\d+\n(?:blocks -?\d+\n)?\Z|say hello\n\Z|undef 0\n\Z|popsum \w+ \d+ \d+ [\w-]+\n\Z")


def cut(data):
    """[(marker, text printed after it by the state, the harness's own last line)]"""
    p = MARK.split(data)
    out = []
    for i in range(1, len(p), 2):
        t = p[i + 1]
        own = []
        while True:
            m = OWN.search(t)
            if not m:
                break
            own.insert(0, m.group(0))
            t = t[:m.start()]
        out.append((p[i].decode(), t, b"".join(own)))
    return out


def direct(seg):
    """(what io.stdout wrote itself, the rest): that does not go through the state's output"""
    return seg.replace(b"direct\n", b""), seg.count(b"direct\n")


def judge(A, B):
    """A: the history without capturing; B: with."""
    st = {}
    n = {"loads compared": 0, "bytes captured": 0}
    oa, ea = cut(A.out), cut(A.err)
    ob, eb = cut(B.out), cut(B.err)
    if [x[0] for x in oa] != [x[0] for x in ob] or [x[0] for x in ea] != [x[0] for x in eb]:
        return "events", "capturing changed what ran: %s / %s" % ([x[0] for x in oa][-4:], [x[0] for x in ob][-4:]), n
    if [x[0] for x in oa] != [x[0] for x in ea]:
        return "skip", "markers", n
    cur = None
    for (m, to, wo), (_, te, we), (_, co, vo), (_, ce, ve) in zip(oa, ea, ob, eb):
        k, cmd, _ = m.split(".")
        if k != "n":
            cur = k
        s = st.setdefault(cur, {"o": None, "e": None})
        if cmd == "capout" and s["o"] is None:
            s["o"] = b""
        if cmd == "caperr" and s["e"] is None:
            s["e"] = b""
        if cmd in ("loadout", "loaderr"):
            w = re.search(rb"popsum (\w+) (\d+) (\d+) ([\w-]+)\n", vo)
            if not w:
                return "load", "%s gave no text (%r)" % (cmd, vo[-100:]), n
            want = (s["o"] if cmd == "loadout" else s["e"]) or b""
            got = (int(w.group(2)), int(w.group(3)))
            if w.group(1) != b"str" or got != (len(want), zlib.crc32(want)):
                h = w.group(4)
                g = b"" if h == b"-" else bytes.fromhex(h.decode()) if h != b"long" else b"(%d bytes)" % got[0]
                i = next((i for i in range(min(len(g), len(want))) if g[i] != want[i]), min(len(g), len(want)))
                return "captured", "%s at %s gives %r.., expected %r.. at byte %d (%d bytes, expected %d)" % (cmd, m, g[max(0, i - 40):i + 60], want[max(0, i - 40):i + 60], i, got[0], len(want)), n
            n["loads compared"] += 1
            n["bytes captured"] += len(want)
            vo = vo.replace(w.group(0), b"")
        if wo != vo:
            return "result", "%s answered %r when capturing, %r otherwise" % (m, vo, wo), n
        for what, key, t, c in (("output", "o", to, co), ("error output", "e", te, ce)):
            if s[key] is None:
                if t != c:
                    return "direct", "%s after %s is %r, expected %r" % (what, m, c[:200], t[:200]), n
            else:
                own, d = direct(t) if key == "o" else (t, 0)
                s[key] += own
                if c != b"direct\n" * d:
                    return "escaped", "captured %s after %s also printed %r" % (what, m, c[:200]), n
    return "ok", "", n


def one(seed):
    r = random.Random(seed)
    ns, fns, steps = history(r)
    srv = api.server()
    for k, v in MODS.items():
        with open(os.path.join(srv.dir, k + ".yasl"), "w") as f:
            f.write(v)
    a, b = (api.run(script(ns, fns, steps, c), cpu=10) for c in (False, True))
    src = ("\n".join("%d: %s" % (k, bytes.fromhex(c.split(" ")[1]).decode("latin-1") if c.startswith("reset") and c != "reset -" else c) for k, c in steps)
           + "\n# host functions\n" + "\n".join("h%d: %s" % (i, "; ".join(f)) for i, f in enumerate(fns))).encode("latin-1")
    tail = b"\n# ---- not captured ----\n" + a.out[-4000:] + b"\n# ---- captured ----\n" + b.out[-4000:] + b"\n# stderr\n" + a.err[-2000:] + b"\n# ---- captured ----\n" + b.err[-2000:]
    for x in (a, b):
        if x.san:
            return seed, "memory", x.san, {}, src, tail
    if a.timeout or b.timeout or a.oom or b.oom:
        return seed, "skip", "limit", {}, src, b""
    if ADDR.search(a.out) or ADDR.search(a.err):
        return seed, "skip", "address printed", {}, src, b""
    st, d, n = judge(a, b)
    return seed, st, d, n, src, tail


def volume(seed):
    """Megabytes in one capture."""
    r = random.Random(seed)
    n = r.choice([1 << 16, (1 << 16) + 1, 1 << 20, 3000000, 10000000])
    m = r.choice([1, 1, 10, 3000])
    line = max(1, n // m - 1)
    unit = r.choice(["abc%", "%s", "x"])
    if r.random() < 0.7:
        src = "for let i = 0; i < %d; i += 1 {\necho '%s'->rep(%d)\n}\n" % (m, unit, line // len(unit))
        want = ((unit * (line // len(unit))) + "\n").encode() * m
        cap, load = "capout", "loadout"
        end, code = b"exec 0", 0
    else:
        src = "-('%s'->rep(%d) ~ 1)->nope\nerror" % (unit, n)
        src = "assert false\n" * 1
        # diagnostics: a long name
        n = min(n, 1 << 16)
        src = "v%s = 1\n" % ("a" * n)
        want = None
        cap, load = "caperr", "loaderr"
    s = "0 new -\n0 libs\n%s0 reset %s\n0 exec\n0 %s\n0 popsum\n0 del\n0 blocks\n"
    x = api.run(s % ("0 %s\n" % cap, api.hexs(src), load), cpu=30)
    if x.san:
        return seed, "memory", x.san, {}, src.encode(), x.out[-500:]
    if x.timeout or x.oom:
        return seed, "skip", "limit", {}, src.encode(), b""
    if want is None:
        y = api.run(s % ("", api.hexs(src), load), cpu=30)
        want = y.err
    w = re.search(rb"popsum str (\d+) (\d+)", x.out)
    if not w or (int(w.group(1)), int(w.group(2))) != (len(want), zlib.crc32(want)):
        return seed, "captured", "%s of %d bytes gives %s" % (load, len(want), w and w.group(0)), {}, src.encode()[:2000], x.out[-500:]
    if not re.search(rb"blocks 0\n", x.out):
        return seed, "leak", "blocks left", {}, src.encode()[:2000], x.out[-500:]
    return seed, "ok", "", {"bytes captured": len(want), "loads compared": 1}, src.encode()[:2000], b""


def item(seed):
    return volume(seed) if "/volume/" in seed else one(seed)


def main(c):
    api.exe()
    items = ["C25/%d/history/%d" % (c.seed, i) for i in range(c.n(3500, 100000))] + ["C25/%d/volume/%d" % (c.seed, i) for i in range(c.n(40, 800))]
    for seed, st, detail, info, src, tail in work.pmap(item, items):
        if st == "skip":
            c.count("skipped, " + detail)
            continue
        for k, v in info.items():
            c.count(k, v)
        c.count("histories" if "history" in seed else "volumes")
        c.observe(src, True)
        if st != "ok":
            c.violation(src.decode("latin-1"), "%s (%s): %s" % (st, seed, detail), src + tail)


check.main("C25", "distinct histories of sources, host calls and capture switches on one or more states whose every loaded text equals, and whose streams lose exactly, what the same history prints without capturing", main, 2000)
