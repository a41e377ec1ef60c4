"""C03: control flow runs exactly the selected statements and variables keep identity."""
from lib import dcheck, gen

CF = dict(let=12, assign=10, aug=8, multi=4, echo=12, if_=10, while_=6, forc=6, forin=6, match=1, fn=0, call=0, mut=1, jump=10,
          ret=0, closure=0, assert_=0, comp=0, setmt=0, swap=3, letfnuse=0)
FEATS = frozenset(["list", "slice"])
CALLS = FEATS | {"call"}


def flow(r):
    return gen.program(r, CF, budget=60, depth=2, feats=FEATS)


def flow_in_fn(r):
    """The same inside functions, where every loop can also be left by return."""
    w = dict(CF, fn=5, call=6, ret=6)
    return gen.program(r, w, budget=50, depth=2, feats=CALLS)


def many(r):
    """Blocks with many variables, left early at various depths."""
    out = []
    n = r.choice([3, 20, 60, 120, 126, 127, 128, 130, 180])
    for i in range(n):
        out.append("let v%d = %d\n" % (i, i))
    pick = lambda: "v%d" % r.choice([0, n - 1, n // 2, r.randrange(n), max(0, n - 2)])
    for j in range(r.randint(2, 6)):
        k = r.random()
        if k < 0.4:
            m = r.randint(1, min(40, 240 - n))
            d = "".join("let w%d = i + %d; " % (q, q) for q in range(m))
            out.append("for i <- [1, 2, 3] {\n%s\n if i == %d { let z = i; %s; }\n w%d += %s\n %s = w%d\n echo w%d\n}\n"
                       % (d, r.randint(1, 4), r.choice(["break", "continue"]), m - 1, pick(), pick(), r.randrange(m), m - 1))
        elif k < 0.7:
            out.append("%s, %s, let k%d = %s, %s + 1, %s\necho k%d\n" % (pick(), pick(), j, pick(), pick(), pick(), j))
        else:
            out.append("for let i = 0; i < 3; i += 1 {\n let q = i * 2\n if q == %d { %s; }\n let r = q\n %s += r\n}\n" % (r.choice([0, 2, 4]), r.choice(["break", "continue"]), pick()))
        out.append("echo [%s, %s, %s]\n" % (pick(), pick(), pick()))
    out.append("echo [v0, v%d]\n" % (n - 1))
    return "".join(out).encode()


def nest(r):
    """Nested loops of all kinds, left from within, with a trace of every iteration."""
    cnt = [0]

    def body(d, loops):
        out = []
        for _ in range(r.randint(1, 3)):
            cnt[0] += 1
            i = cnt[0]
            w = r.random()
            if w < 0.3 and d < 4 and cnt[0] < 25:
                v = "i%d" % i
                h = r.choice(["for %s <- [1, 2, 3] {" % v, "for let %s = 0; %s < 3; %s += 1 {" % (v, v, v),
                              "let %s = 0\nwhile %s < 3 {\n%s += 1" % (v, v, v), "for %s <- 'xyz' {" % v,
                              "if true {\nlet %s = 9" % v, "if false {} else {\nlet %s = 8" % v])
                isloop = not h.startswith("if")
                out.append(h + "\n" + body(d + 1, loops + ([v] if isloop else [])) + "}\n")
            elif w < 0.55:
                out.append("let l%d = %d\n" % (i, i))
                out.append("echo 'p%d ' ~ l%d%s\n" % (i, i, "".join(" ~ ' ' ~ " + v for v in loops[-3:])))
            elif loops and w < 0.85:
                v = r.choice(loops)
                c = r.choice(["%s == 2" % v, "%s == 'y'" % v, "%s == 1" % v, "%s == 'x'" % v, "true" if r.random() < 0.3 else "%s == 0" % v])
                out.append("if %s {\nlet t%d = %d\n%s\n}\n" % (c, i, i, r.choice(["break", "continue"])))
            else:
                out.append("tot += %d\n" % i)
        return "".join(out)
    return ("let tot = 0\n" + body(0, []) + body(0, []) + "echo tot\n").encode()


def order(r):
    """Assignments whose parts announce their evaluation."""
    out = ["let l = [1, 2, 3]\nlet d = {.a: 1, .b: 2}\nlet x = 1\nlet y = 2\nfn t(n, v) {\n echo n\n return v\n}\nfn two(n) {\n echo n\n return n, n + 1\n}\nfn none() {}\n"]
    k = [0]

    def n():
        k[0] += 1
        return k[0]

    def val():
        w = r.random()
        if w < 0.6:
            return "t(%d, %d)" % (n(), r.randint(0, 9))
        return r.choice(["x", "y", "l[0]", "d.a", "two(%d)" % (100 + n()), "none()"])

    def target():
        w = r.random()
        if w < 0.3:
            return r.choice(["x", "y"])
        if w < 0.5:
            return "l[t(%d, %d)]" % (n(), r.randint(-3, 2))
        if w < 0.6:
            return "t(%d, l)[%d]" % (n(), r.randint(0, 2))
        if w < 0.8:
            return "d[t(%d, %s)]" % (n(), r.choice([".a", ".b", "1"]))
        if w < 0.9:
            return "t(%d, d).%s" % (n(), r.choice("ab"))
        return r.choice(["let", "const"]) + " m%d" % n()
    for _ in range(5):
        if r.random() < 0.6:
            ts = [target() for _ in range(r.randint(2, 4))]
            if not ts[0].startswith(("let", "const", "x", "y", "l", "d")):
                ts[0] = "x"
            out.append(", ".join(ts) + " = " + ", ".join(val() for _ in range(r.randint(1, len(ts)))) + "\n")
        else:
            t = target()
            while t.startswith(("let", "const")):
                t = target()
            out.append(t + " = " + val() + "\n")
        out.append("echo [x, y, l[0], l[1], l[2], d.a, d.b]\n")
    return "".join(out).encode()


def far(r):
    """Bodies so long that jumps over them and back need more than one or two bytes."""
    left = [r.choice([200, 1500, 1500, 3200])]

    def pad():
        k = min(left[0], r.choice([0, 0, 3, 10, 40, 150, 700, 1300, 1500, 1500]))
        left[0] -= k
        x = r.choice(["z = n > 1.5 && n != 'u'", "n = n ?? 'u' ?? z", "s = n == 'no' || z", "if n == 'no' {\nz = 1\n}", "n = n === 'm' ? 'q' : n"])
        return (x + "\n") * k
    u = [0]

    def new():
        u[0] += 1
        return "v%d" % u[0]

    def cond():
        return r.choice(["n == 'never'", "n != 'never'", "z == z", "false || n == 'no'", "true && n != 'no'", "!n", "n"])

    def body(d, loop, fn):
        t = pad() if r.random() < 0.7 else ""
        for _ in range(r.randint(0, 2)):
            t += one(d - 1, loop, fn)
            if r.random() < 0.5:
                t += pad()
        if loop and r.random() < 0.3:
            t += "if %s {\n%s%s\n}\n" % (loop, pad() if r.random() < 0.3 else "", r.choice(["break", "continue"]))
        return t + "echo '%s'\n" % new()

    def one(d, loop, fn):
        w, v = r.random(), new()
        if d < 0 or w < 0.1:
            return "echo [%s]\n" % r.choice(["'here'", "n", "z"])
        if w < 0.3:
            return "if %s {\n%s}%s\n" % (cond(), body(d, loop, fn), r.choice(["", " else {\n%s}" % body(d, loop, fn), " elseif %s {\n%s} else {\n%s}" % (cond(), body(d, loop, fn), body(d, loop, fn))]))
        if w < 0.45:
            return "for let %s = 0; %s < 3; %s += 1 {\n%s}\n" % (v, v, v, body(d, "%s == %d" % (v, r.randint(0, 2)), fn))
        if w < 0.55:
            return "for %s <- [1, 2, 3] {\n%s}\n" % (v, body(d, "%s == %d" % (v, r.randint(1, 3)), fn))
        if w < 0.65:
            return "let %s = 0\nwhile %s < 3 {\n%s += 1\n%s}\n" % (v, v, v, body(d, "%s == %d" % (v, r.randint(1, 3)), fn))
        if w < 0.8:
            return "match %s {\n%s%s}\n" % (r.choice(["1", "2", "'x'", "z", "[1, 2]"]), "".join("%s {\n%s}\n" % (r.choice(["1", "2 if n == 'no'", "'x'", "[1, let b%s]" % v, "int | [1, *]"]), body(d, loop, fn)) for v in [new() for _ in range(r.randint(1, 3))]),
                                              r.choice(["", "* {\n%s}\n" % body(d, loop, fn)]))
        if w < 0.9:
            return "fn f%s(p) {\nlet loc = p\n%sreturn %s\n}\necho f%s(3)\n" % (v, body(d, None, True), r.choice(["p", "loc"]), v) if r.random() < 0.5 else \
                "let f%s = fn() {\n%sn = n ?? 0\nreturn z\n}\necho f%s()\n" % (v, body(d, None, True), v)
        if fn:
            return "if %s {\n%sreturn 'early'\n}\n" % (r.choice([cond(), loop or "n == 'no'"]), pad())
        return "echo (%s ? [%s] : 'short')\n" % (cond(), ", ".join(r.choice(["n", "'l'", "1.25", "z ?? 1"]) for _ in range(r.choice([1, 20, 200])))) if r.random() < 0.5 else "echo (%s %s len [%s])\n" % (cond(), r.choice(["&&", "||"]), ", ".join("n" for _ in range(r.choice([1, 50, 400]))))
    t = "let n = 0\nlet s = undef\nlet z = 1\nfn f0(x) {\nreturn x\n}\n"
    if r.random() < 0.5:
        t += "fn main(q) {\n%s%sreturn n\n}\necho main(1)\n" % (body(3, None, True), body(2, None, True))
    else:
        t += body(3, None, False) + body(2, None, False)
    return (t + "echo [n, z]\n").encode(), {"budget": 1000000}


dcheck.main("C03", "distinct programs of nested control flow and assignments whose complete trace equals the reference model's",
            {"statements": (2500, 80000, flow), "statements in functions": (2500, 80000, flow_in_fn), "many variables": (1200, 30000, many),
             "nested loops": (3500, 100000, nest), "assignment order": (1500, 40000, order), "long bodies": (80, 6000, far)})
