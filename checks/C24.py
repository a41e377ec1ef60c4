"""C24: a state can be reused after success and after failure; the interactive mode runs pieces like one program."""
import os, random, re
from lib import api, check, corpus, diff, gen, sessions, soup, work, yaslref as R
from lib.sessions import blocks, judge, model, text
from lib.webgen import Web

PROGS = [s for _, s in corpus.programs() if not re.search(rb"rand|shuffle|stdin|clock|require|mt\.|__|export|io\.|0x|global", s)]
FIXED = ["1 + 'a'", "let e%d = -'s'", "assert false", "undef()", "[1][5]", "let bad%d = [1", "echo (", "nosuchname", "nosuch%d = 4", "break", "return 3", "fn q%d( {", "'abc", "let let = 1", "if true {", "echo 1 // 0",
         "const k%d = 1; k%d = 2", "let t%d = 3; let u%d = t%d + []", "fn w%d(n) { return n == 0 ? -'deep' : w%d(n - 1) + 1; }", "match 1 { [", "let v%d = 1; let v%d = 2", "{.a: 1}.b.c", "for x <- 5 { echo x; }",
         "let f%d = undef; f%d = fn(n) { let h = 'heap' ~ n; if n == 0 { return -h; }; return f%d(n - 1); }; f%d(20)", "for x <- [1, 2, 3] { let y = [x]; if x == 2 { echo y[4]; }; }", "echo 'one'; echo 'two'; -'three'",
         "\"a#{1 + 'b'}\"", "[x // 0 for x <- [1, 2]]", "[3, 1, 'a']->sort()", "match [1, 2] { [let a, let b] { -[a]; } }", "echo 5; )", "x y z", "#{", "/* open", "let \x01 = 2", "0x", "1e", "'\\q'", "echo 1.5.5"]


def fixed(r):
    return r.choice(FIXED).replace("%d", str(r.randint(0, 3)))


def weights(r):
    w = {k: r.choice([0, 1, 3, 8]) for k in gen.DEFAULT}
    w.update(echo=6, let=6, fn=5, call=8, block=0, closure=4)
    return w


def render(t, line):
    if line:
        return t.replace("\x01", "").replace("\x02", "; ")
    return t.replace("\x01", "").replace("\x02", "\n")


def pieces(r, line):
    """Texts of a session: statements of one generated program cut into pieces, with failing ones between them."""
    g = gen.Gen(r, weights(r), budget=45, perr=r.choice([0, 0, 0.005, 0.02]), depth=2)
    out, cur = [], []
    for _ in range(r.randint(4, 25)):
        if g.budget <= 0:
            break
        w = r.random()
        if w < 0.2:
            try:
                t = g.x(r.choice(["int", "str", "bool", "float", "list", "undef"]), 2)
            except Exception:
                continue
        else:
            t = g.stmt()
        if t:
            t = render(t, line)
            if line and "\n" in t:
                continue
            cur.append(t)
        if cur and r.random() < 0.7:
            out.append(("; " if line else "\n").join(cur) + (r.choice(["", ";", " ", " # note"]) if r.random() < 0.2 else ""))
            cur = []
        if r.random() < 0.12:
            out.append(fixed(r))
        if r.random() < 0.03:
            out.append(r.choice(["", " ", "# only a comment", ";"]) if line else r.choice(["", " ", "\n\n", "# c\n"]))
    if cur:
        out.append(("; " if line else "\n").join(cur))
    return [p.encode("latin-1") for p in out]


GL = ["ga", "gb", "gc"]


def glue(r):
    """A program that works on the host's globals."""
    g, h = r.choice(GL), r.choice(GL)
    n = r.randint(0, 9)
    t = ["%s = %d" % (g, n), "%s = [%s, %d]" % (g, h, n) if g != h else "%s = [%d]" % (g, n), "%s = 's%d' ~ '%s'" % (g, n, g), "echo %s" % g, "echo %s ~ '!'" % g, "%s += %d" % (g, n), "%s = {.k: %d}" % (g, n), "echo %s.k" % g, "%s.k += 1" % g,
         "let c%d = %d\n%s = fn(a) {\nc%d += a ?? 1\nreturn c%d\n}" % (n, n, g, n, n), "echo %s(%d)" % (g, n), "%s->push(%d)" % (g, n), "%s = %s" % (g, h), "%s, %s = %s, %s" % (g, h, h, g) if g != h else "echo 'same'",
         "let loc = %s\n%s = fn() {\nreturn loc\n}" % (h, g) if g != h else "echo 1", "echo len %s" % g, "for x <- [1, 2] {\n%s = x\n}" % g, "fn m(a) {\n%s = a\nreturn %s\n}\necho m(%d)" % (g, g, n), "%s = undef" % g,
         "%s = mt.set({.v: %d}, {.__add: fn(a, b) {\nreturn a.v + b\n}})" % (g, n), "echo %s + 1" % g, "echo %s->nope()" % g, "echo [%s, %s] === undef" % (g, h), "let %s = 5\necho %s" % (g, g),
         "%s = fn(n) {\nif n == 0 { return -'deep'; }\nreturn %s(n - 1)\n}\n%s(%d)" % (g, g, g, n), fixed(r), fixed(r)]
    return "\n".join(r.choice(t) for _ in range(r.randint(1, 5)))


def mixed(r):
    out = []
    for _ in range(r.randint(3, 12)):
        w = r.random()
        if w < 0.65:
            s = glue(r)
        elif w < 0.75:
            s = fixed(r)
        elif w < 0.8:
            s = Web(r).program()
        else:
            s = gen.lay(gen.Gen(r, weights(r), budget=15, perr=0.01, depth=2).stmts(8)).decode("latin-1")
        out.append(s.encode("latin-1") + (b"\n" if r.random() < 0.9 else b""))
    return out


def setup(I):
    for g in GL:
        I.globals[g.encode()] = None
        I.hostglobals.add(g.encode())


def viaapi(seq, files=False):
    return sessions.viaapi(seq, files, GL)


def session(kind, r):
    if kind == "interactive":
        seq = [(p + b"\n" if r.random() < 0.97 else p, True) for p in pieces(r, False)]
    elif kind == "programs":
        seq = [(p, False) for p in mixed(r)]
    elif kind == "long":
        seq = [(p + b"\n", r.random() < 0.98) for p in long(r)]
    else:
        seq = [(p, r.random() < 0.5) for p in mixed(r)]
    R.MADE = []
    try:
        outs = model(seq, setup)
        cyc = R.cyclic(R.MADE)
    finally:
        R.MADE = None
    src = text(seq)
    if isinstance(outs, str):
        return "skip", outs, src, {}, b""
    res, got = viaapi(seq, r.random() < 0.3)
    info = {"sources run": len(seq), "sources failed": sum(o.code != 0 for o in outs), "bytes of output compared": sum(len(o.out) for o in outs)}
    tail = b"\n# ---- observed ----\n" + res.out[-3000:] + b"\n# stderr\n" + res.err[-3000:] + b"\n# ---- expected ----\n" + b"\n".join(b"%d %s" % (o.code, o.out) for o in outs)[-3000:]
    if res.san:
        return "memory", res.san, src, info, tail
    if res.hung:
        return "hang", "no end within the CPU limit", src, info, tail
    if res.timeout or res.oom:
        return "skip", "limit", src, {}, b""
    m = judge(seq, outs, got)
    if not m and blocks(res) and not cyc:
        m = "leak", "%d blocks not released" % blocks(res)
    if m:
        return m[0], m[1], src, info, tail
    return "ok", "", src, info, b""


def long(r):
    """Hundreds of pieces: many names, constants and functions that use those of far earlier pieces, failing pieces between them."""
    n, names, fns, out, nf = r.choice([40, 130, 200, 300, 450]), [], [], [], 0
    most = r.choice([3, 30, 100, 140, 190])

    def val():
        k = len(out)
        return r.choice(["%d" % k, "'s%d'" % k, "%d.5" % k, "[%d, 'e%d']" % (k, k), "{'k%d': %d}" % (k, k), "%d" % (k * 10 ** r.randint(0, 12)), "'%s'" % ("long%d" % k * r.choice([1, 20, 60])), "true", "undef"])
    for i in range(n):
        w = r.random()
        v = r.choice(names[:5] + names[-5:] + names) if names else None
        have = len(names) + nf
        if have < most and w < 0.5 or not names:
            t = r.choice(["let v%d = %s" % (i, val()), "const v%d = %s" % (i, val()), "let v%d = [%s, %s]" % (i, v, val()) if v else "let v%d = 1" % i])
            names.append("v%d" % i)
        elif have < most and w < 0.65:
            t = "fn f%d(a) { %s; return [a, %s, %s]; }" % (i, r.choice(["a = a ~ 'x%d'" % i, "let b = %s" % v, "a = [a]"]), v, r.choice(fns) + "(0)" if fns and r.random() < 0.3 else val())
            nf += 1
            fns = fns[:3] + fns[-6:] + ["f%d" % i]
        elif w < 0.75:
            t = "echo %s" % v
        elif w < 0.8 and fns:
            t = "echo %s(%s)" % (r.choice(fns), val())
        elif w < 0.87:
            t = "%s = %s" % (v, val())
        elif w < 0.92:
            t = "for x <- [%s, %s] { let y = x; echo y; }" % (v, val())
        elif w < 0.97:
            t = fixed(r)
        else:
            t = "if %s === %s { echo 'same'; } elseif true { let z = %s; echo z; }" % (v, val(), val())
        if t:
            out.append(t.encode("latin-1"))
    return out


def stdin(kind, r):
    """The command's interactive mode."""
    seq = [(p, True) for p in (long(r) if kind == "long command" else pieces(r, True)) if b"\n" not in p]
    if r.random() < 0.3:
        seq.insert(r.randint(0, len(seq)), (b"nosuch" + b" + 1" * r.choice([1, 200, 5000]), True))
    # each line is given with its newline
    outs = model([(p + b"\n", True) for p, _ in seq], None)
    src = text(seq)
    if isinstance(outs, str):
        return "skip", outs, src, {}, b""
    lines = b"".join(p + b"\n" for p, _ in seq)
    if r.random() < 0.2 and seq and seq[-1][0]:
        lines = lines[:-1]      # the last line may end with the input
    res = work.server().call(["yasl"], lines, cpu=10)
    info = {"lines given to the interactive mode": len(seq)}
    tail = b"\n# ---- observed ----\n" + res.out[-3000:] + b"\n# stderr\n" + res.err[-3000:]
    if res.san:
        return "memory", res.san, src, info, tail
    if res.hung:
        return "hang", "no end within the CPU limit", src, info, tail
    if res.timeout or res.oom:
        return "skip", "limit", src, {}, b""
    if res.code != 0:
        return "status", "the interactive mode ended with %s" % res.code, src, info, tail
    head, sep, rest = res.out.partition(b"yasl> ")
    if not sep or head.count(b"\n") < 2:
        return "output", "no banner and prompt", src, info, tail
    # consecutive prompts are cut only where the expected text ends: a program may print one too
    for i, o in enumerate(outs):
        want = o.out
        if b"~" in want:
            return "skip", "order", src, {}, b""
        if not rest.startswith(want):
            return "output", "line %d: printed %r, expected %r" % (i + 1, rest[:200], want[:200]), src, info, tail
        rest = rest[len(want):]
        if not rest.startswith(b"yasl> "):
            return "output", "line %d: %r follows its output %r" % (i + 1, rest[:100], want[-100:]), src, info, tail
        rest = rest[6:]
    if rest:
        return "output", "%r after the last line" % rest[:100], src, info, tail
    return "ok", "", src, info, b""


ALONE = {}


def among(kind, r):
    """Independent programs one after the other on one state: each as if it were the only one."""
    seq = []
    for _ in range(r.randint(2, 14)):
        w = r.random()
        if w < 0.6:
            p = r.choice(PROGS)
        elif w < 0.8:
            p = soup.mutate(r)
            if re.search(rb"rand|shuffle|stdin|clock|require|mt|__|export|io|global|\0", p) or len(p) > 20000:
                continue
        else:
            p = gen.program(r, weights(r), budget=20, perr=0.01, depth=2)
        seq.append((p, False))
    src = text(seq)
    res, got = viaapi(seq, r.random() < 0.5)
    tail = b"\n# ---- observed ----\n" + res.out[-3000:] + b"\n# stderr\n" + res.err[-3000:]
    if res.san:
        return "memory", res.san, src, {}, tail
    if res.timeout or res.oom:
        return "skip", "limit", src, {}, b""
    if len(got) != len(seq):
        return "events", "%d of %d programs ran" % (len(got), len(seq)), src, {}, tail
    strip = lambda b: re.sub(rb"<[\w.]+: -?\d+>|0x[0-9a-f]+", b"ADDR", b)
    for (p, _), (code, out, err) in zip(seq, got):
        if p not in ALONE:
            if len(ALONE) > 3000:
                ALONE.clear()
            x, y = viaapi([(p, False)])
            ALONE[p] = y[0] if y and not x.san and not x.timeout and not x.oom else None
        a = ALONE[p]
        if a is None:
            return "skip", "alone", src, {}, b""
        for what, u, v in (("status", a[0], code), ("output", strip(a[1]), strip(out)), ("stderr", strip(a[2]), strip(err))):
            if u != v:
                return what, "%r after other programs, %r alone" % (v if what == "status" else v[-300:], u if what == "status" else u[-300:]), src + b"\n#### the program\n" + p, {}, tail
    return "ok", "", src, {"programs run after others": len(seq)}, b""


def deep(kind, r):
    """Many abandoned runs, then a program that needs most of the stack."""
    fails = [b"fn f(n) { let a = [n]; if n == 0 { return -'x'; }; return f(n - 1) + 1; }\nf(%d)\n" % r.choice([3, 30, 100]), b"let a = [1, 2, -'x']\n", b"for x <- [1, 2] { for y <- [x] { for z <- 'ab' { -z; } } }\n", b"fn f(n) { return f(n + 1) + 1; }\nf(0)\n",
             b"let q = 1\nlet w = q +\n", b"undeclared\n", b"[3, 1]->sort(fn(a, b) { return -'x'; })\n", b"match [1, [2, 3]] {\n[let a, [let b, let c]] {\necho -'x'\n}\n}\n", b"let a = 1\nlet b = 2\necho 'fine'\n", b"ga = [1, 2]\n"]
    n = r.choice([5, 50, 200])
    seq = [(r.choice(fails), r.random() < 0.3) for _ in range(n)]
    big = "fn f(n) {\n%sif n == 0 { return 7; }\nlet s = f(n - 1)\nreturn s\n}\necho f(%d)\n"
    l = r.choice([0, 5, 40])
    d = 960 // (5 + l) - 1
    seq.append(((big % ("".join("let v%d = n\n" % i for i in range(l)), d)).encode(), False))
    seq.append((b"echo [x for x <- '.'->rep(700)]->join('') == '.'->rep(700)\necho ga == [1, 2] || ga == undef\n", False))
    # interactive sources declare names that stay
    seq = [(re.sub(rb"\b(f|a|b|q|w)\b(?!')", lambda m: m.group(1) + b"%d" % i, s) if inter else s, inter) for i, (s, inter) in enumerate(seq)]
    src = text(seq[-3:]) + b"#### after %d sources\n" % n + text(seq[:6])
    res, got = viaapi(seq)
    tail = b"\n# ---- observed ----\n" + res.out[-1500:] + b"\n# stderr\n" + res.err[-1500:]
    info = {"abandoned runs before a deep program": n}
    if res.san:
        return "memory", res.san, src, info, tail
    if res.hung:
        return "hang", "no end within the CPU limit", src, info, tail
    if res.timeout or res.oom:
        return "skip", "limit", src, {}, b""
    if len(got) != len(seq):
        return "events", "%d of %d ran" % (len(got), len(seq)), src, info, tail
    if got[-2][:2] != (0, b"7\n"):
        return "deep", "a program needing most of the stack ended with %s %r after %d abandoned runs" % (got[-2][0], got[-2][2][:200], n), src, info, tail
    if got[-1][:2] != (0, b"true\ntrue\n"):
        return "deep", "the last program gave %s %r" % got[-1][:2], src, info, tail
    return "ok", "", src, info, b""


KINDS = {"interactive": session, "programs": session, "both": session, "command": stdin, "among": among, "deep": deep, "long": session, "long command": stdin}


def one(item):
    kind, seed = item
    st = KINDS[kind](kind, random.Random(seed))
    return (kind, seed) + st


def main(c):
    api.exe()
    n = {"interactive": c.n(2500, 80000), "programs": c.n(2500, 80000), "both": c.n(1500, 40000), "command": c.n(1500, 40000), "among": c.n(700, 20000), "deep": c.n(60, 1500), "long": c.n(120, 4000), "long command": c.n(80, 2500)}
    items = [(k, "C24/%d/%s/%d" % (c.seed, k, i)) for k in n for i in range(n[k])]
    random.Random(c.seed).shuffle(items)
    for kind, seed, st, detail, src, info, tail in work.pmap(one, items):
        for k, v in info.items():
            c.count(k, v)
        if st == "skip":
            c.count("skipped, %s, %s" % (kind, detail.split(":")[0][:30]))
            continue
        c.count("sessions, " + kind)
        c.observe(src, True)
        if st != "ok":
            c.violation(src.decode("latin-1"), "%s (%s, %s): %s" % (st, kind, seed, detail), src + tail)


check.main("C24", "distinct sequences of sources on one state (interactive pieces, whole programs, both; failing and rejected ones among them) whose every output, status, kind and line equals the reference model's "
           "session, or the same program's alone", main, 3000)
