"""C04: calls bind arguments and results by position, at every depth and arity."""
from lib import dcheck, gen

W = dict(let=8, assign=6, aug=4, multi=8, echo=10, if_=5, while_=1, forc=2, forin=3, match=1, fn=10, call=10, mut=2, jump=2,
         ret=8, closure=0, assert_=0, comp=1, setmt=0, swap=1, letfnuse=8)
FEATS = frozenset(["list", "call", "iife", "slice", "table"])


def typed(r):
    return gen.program(r, W, budget=45, depth=3, feats=FEATS)


def arity(r):
    """Functions of every arity called with every number of arguments, results used everywhere."""
    out = ["let tr = 0\nfn t(v) {\n tr += 1\n echo 't' ~ v\n return v\n}\n"]
    fs = []
    for i in range(r.randint(2, 4)):
        p, q = r.randint(0, 5), r.randint(0, 4)
        ps = ["p%d" % j for j in range(p)]
        rets = [r.choice(ps + [str(j * 10 + i), "undef", "tr"]) for j in range(q)]
        if fs and r.random() < 0.4:
            rets = rets[:2] + [call(r, fs, 1)]
        loc = "".join("let q%d = %s\n" % (j, r.choice(ps + ["%d" % j])) for j in range(r.randint(0, 3)))
        asg = "".join("%s = %s\n" % (x, r.choice(["5", "undef", x + " ?? 0", "'s'"])) for x in ps if r.random() < 0.2)
        form = r.random()
        body = "%s%s%secho %s\n%s" % ("echo 'f%d'\n" % i, loc, asg, "[" + ", ".join(ps) + "]", "return " + ", ".join(rets) + "\n" if rets else "")
        if form < 0.6:
            out.append("fn f%d(%s) {\n%s}\n" % (i, ", ".join(ps), body))
        else:
            out.append("const f%d = fn(%s) {\n%s}\n" % (i, ", ".join(ps), body))
        fs.append("f%d" % i)
    out.append("let tb = {.v: 7}\nfn tb.m(s, a, b) {\n echo [s.v, a, b]\n return b, a\n}\n")
    for _ in range(r.randint(3, 8)):
        c = call(r, fs, 2)
        w = r.random()
        if w < 0.15:
            out.append(c + "\n")
        elif w < 0.3:
            out.append("echo %s\n" % c)
        elif w < 0.45:
            n = r.randint(2, 6)
            lead = r.randint(0, 2)
            out.append(", ".join("let a%d" % j for j in range(n)) + " = " + "".join(item(r, fs, 1) + ", " for _ in range(min(lead, n - 1))) + c + "\necho [%s]\n" % ", ".join("a%d" % j for j in range(n)))
            out[-1] = "if true {\n" + out[-1] + "}\n"
        elif w < 0.6:
            out.append("echo collections.list(%s)\n" % ", ".join([item(r, fs, 1) for _ in range(r.randint(0, 3))] + [c]))
        elif w < 0.7:
            out.append("echo [%s]\n" % ", ".join([item(r, fs, 1) for _ in range(r.randint(0, 2))] + [c, "0"][: r.randint(1, 2)]))
        elif w < 0.8:
            out.append("echo tb->m(%s)\n" % ", ".join([item(r, fs, 1) for _ in range(r.randint(0, 2))] + [c]))
        elif w < 0.9:
            out.append("echo 'x' ~ [%s == undef, 1]\n" % c)
        else:
            out.append("echo math.max(1, [%s]->pop() == undef ? 2 : 3)\n" % c)
    out.append("echo tr\n")
    return "".join(out).encode()


def item(r, fs, d):
    w = r.random()
    if w < 0.4 or d <= 0:
        return r.choice(["1", "2", "'a'", "undef", "t(3)", "t('z')", "[1]"])
    return call(r, fs, d - 1)


def call(r, fs, d):
    f = r.choice(fs)
    return f + "(" + ", ".join(item(r, fs, d) for _ in range(r.randint(0, 6))) + ")"


def recursion(r):
    """Recursive definitions against their own structure, with live temporaries around each call."""
    n = r.choice([0, 1, 2, 5, 9, 20, 45])
    k = r.randrange(6)
    small = min(n, 9)
    prog = [
        "fn f(n, acc) {\n if n == 0 { return acc; }\n let a = n * 2\n let b = [n, f(n - 1, acc + a), a]\n return b[1] + b[0] - b[2] + a\n}\necho f(%d, 3)\n" % n,
        "fn fib(n) {\n return n < 2 ? n : fib(n - 1) + fib(n - 2)\n}\necho fib(%d)\n" % min(n, 11),
        "fn ev(n) {\n if n == 0 { return true, 'ev'; }\n return n > 0 && !ev(n - 1), 'x'\n}\necho [ev(%d), 1]\nlet a, let b = ev(%d)\necho [a, b]\n" % (n, n),
        "fn h(n, a, b, c) {\n if n == 0 { return 0; }\n let l = 1 + h(n - 1, a, c, b)\n if n > %d { echo a ~ c; }\n return l + h(n - 1, b, a, c)\n}\necho h(%d, 'a', 'b', 'c')\n" % (small - 1, small % 7),
        "fn s(l) {\n if len l < 2 { return l; }\n let p = l[0]\n return s([x for x <- l[1:] if x < p]) + [p] + s([x for x <- l[1:] if x >= p])\n}\necho s([%s])\n" % ", ".join(str(r.randint(0, 50)) for _ in range(small + 3)),
        "fn g(n, a, b) {\n if n == 0 { return a, b; }\n return g(n - 1, b, a ~ n)\n}\necho collections.list(g(%d, 'a', 'b'))\n" % n,
    ][k]
    return prog.encode()


def wide(r):
    """Many parameters, arguments, locals, results, around powers of two."""
    sizes = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 180, 200, 230]
    out = []
    for i in range(r.randint(1, 3)):
        p = r.choice(sizes)
        loc = min(r.choice([0, 1, 2, 5, 40]), 245 - p)
        q = r.choice([0, 1, 2, 3, 20] + sizes)
        vs = ["p%d" % j for j in range(p)] + ["q%d" % j for j in range(loc)]
        body = "".join(" let q%d = %s\n" % (j, r.choice(vs[:p + j] + ["%d" % j])) for j in range(loc))
        body += "".join(" %s = %s\n" % (r.choice(vs), r.choice(vs + ["5"])) for _ in range(r.randint(0, 2)))
        show = sorted(set([0, p - 1, p // 2, r.randrange(p), len(vs) - 1]))
        body += " echo [%s]\n" % ", ".join(vs[j] for j in show)
        w = r.random()
        if w < 0.3:
            body += " const h = fn() { return [%s]; }\n echo h()\n" % ", ".join(r.choice(vs) for _ in range(3))
        if q:
            body += " return %s\n" % ", ".join(r.choice(vs) if r.random() < 0.7 else str(j) for j in range(q))
        out.append("fn f%d(%s) {\n%s}\n" % (i, ", ".join(vs[:p]), body))
        for _ in range(r.randint(1, 4)):
            n = max(0, r.choice([p, p, p - 1, p + 1, p + 5, 0, 1, 2, 100, 130, 250]))
            a = ["%d" % (j * 3 + i) if r.random() < 0.8 else r.choice(["'a%d'" % j, "undef", "[%d]" % j]) for j in range(n)]
            if a and r.random() < 0.2:
                a[r.randrange(n)] = "f%d(1, 2)" % r.randrange(i + 1)
            if a and r.random() < 0.15:
                a[-1] = "collections.list(4, 5, 6)->__get(0)"
            c = "f%d(%s)" % (i, ", ".join(a))
            w = r.random()
            if w < 0.4:
                out.append("echo %s\n" % c)
            elif w < 0.6:
                out.append("echo ['x', %s, 'y']\n" % c)
            elif w < 0.85:
                k = r.choice([2, 3, 5, 16, 33, 64, 100, 126, 127])
                pre = r.randint(0, 2)
                out.append("if true {\n %s = %s%s\n echo [%s]\n}\n" % (", ".join("let a%d" % j for j in range(k)), "'l', " * min(pre, k - 1), c,
                                                                 ", ".join("a%d" % j for j in sorted(set([0, 1, k // 2, k - 1])))))
            else:
                out.append("echo len collections.list(%s)\n" % ", ".join(a + [c]))
    return "".join(out).encode()


def nested(r):
    """Deeply nested calls in one expression."""
    out = ["fn i(x) {\n return x\n}\nfn add(a, b) {\n return a + b\n}\nfn sw(a, b) {\n return b, a\n}\nconst c = fn(f, x, y) {\n return f(x, y)\n}\n"]

    def e(d):
        if d <= 0:
            return str(r.randint(0, 9))
        w = r.random()
        if w < 0.25:
            return "i(%s)" % e(d - 1)
        if w < 0.5:
            return "add(%s, %s)" % (e(d - 1), e(d - 1))
        if w < 0.65:
            return "add(sw(%s, %s))" % (e(d - 1), e(d - 2))
        if w < 0.8:
            return "c(add, %s, %s)" % (e(d - 1), e(d - 2))
        if w < 0.9:
            return "(fn(a, b) { return %s + a - (b ?? 1); })(%s)" % (e(d - 2), e(d - 1))
        return "[%s, %s][1]" % (e(d - 1), e(d - 2))
    for _ in range(4):
        out.append("echo %s %s %s\n" % (e(5), r.choice("+-"), e(4)))
    return "".join(out).encode()


dcheck.main("C04", "distinct programs of calls (arity, results, nesting, recursion) whose trace equals the reference model's",
            {"typed": (2500, 80000, typed), "arity": (4500, 150000, arity), "recursion": (700, 10000, recursion), "nested": (1500, 40000, nested), "wide": (700, 15000, wide)})
