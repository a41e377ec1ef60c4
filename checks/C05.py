"""C05: closures share and keep the variables they capture."""
from lib import dcheck, gen
from lib.webgen import Web

W = dict(let=8, assign=8, aug=8, multi=2, echo=8, if_=5, while_=3, forc=4, forin=5, match=3, fn=8, call=10, mut=1, jump=5,
         ret=4, closure=12, assert_=0, comp=1, setmt=0, swap=1, letfnuse=2)
FEATS = frozenset(["list", "call", "iife"])


def typed(r):
    return gen.program(r, W, budget=45, depth=2, feats=FEATS)


def web(r):
    return Web(r).program().encode()


def exits(r):
    """A captured variable after its scope was left by every route."""
    out = ["let fs = []\nlet log = []\n"]
    for k in range(r.randint(2, 5)):
        nl = r.randint(0, 3)
        pre = "".join("let u%d = %d\n" % (i, i) for i in range(nl))
        post = "".join("let y%d = %d\n" % (i, i * 7) for i in range(r.randint(0, 3)))
        mk = "let c = x * 10\nfs->push(fn() { c += 1; return c; })\nfs->push(fn() { return c * 1000 + x; })\n"
        if r.random() < 0.4:
            mk = "let b = x\n" + mk + "fs->push(fn() { b, c = c, b; return b; })\n"
        exit_ = r.choice(["break", "continue", "return c", "if x == 2 { break; }", "if x == 1 { continue; }", "if c > 10 { return c; }", "c += 5", "", "{}[0]()" if False else ""])
        lp = r.choice(["for x <- [1, 2, 3] {", "for let x = 1; x < 4; x += 1 {", "let x = 0\nwhile x < 3 {\nx += 1", "match 2 {\nlet x {", "if true {\nlet x = 4",
                       "for q <- 'ab' {\nfor x <- [5, 6] {"])
        isloop = "for" in lp or "while" in lp
        if not isloop:
            exit_ = exit_ if "return" in exit_ or exit_ in ("", "c += 5") else ""
        end = "}\n" * (2 if lp.startswith("match") or "for q" in lp else 1)
        out.append("fn m%d() {\n%s%s\n%s%s%s\n%s%s}\necho m%d()\n" % (k, pre, lp, mk, exit_ + "\n" if exit_ else "", post, end.replace("}\n}\n", "}\n}\n"), "return 0\n", k))
        if r.random() < 0.5:
            out.append("for f <- fs { echo f(); }\n")
    out.append("let z1, let z2 = 99, 98\nfor f <- fs { echo f(); }\nfor f <- fs { echo f(); }\n")
    return "".join(out).encode()


def counters(r):
    """Objects made of functions over one private state."""
    out = ["fn make(s) {\n let h = []\n return {\n  .add: fn(n) { s += n; h->push(s); return s; },\n  .get: fn() { return s; },\n"
           "  .undo: fn() { if len h == 0 { return undef; }; h->pop(); s = len h > 0 ? h[-1] : 0; return s; },\n  .sub: fn(f) { return make2(f, s); }\n }\n}\n"]
    out = ["fn make2(f, s) {\n return [fn() { s = f(s); return s; }, fn(x) { s = x; }]\n}\n"] + out
    out.append("let os = [make(%d), make(%d)]\nlet extra = []\n" % (r.randint(0, 9), r.randint(0, 9)))
    for _ in range(r.randint(4, 14)):
        o = "os[%d]" % r.randint(0, 1)
        out.append(r.choice(["echo %s.add(%d)\n" % (o, r.randint(-5, 9)), "echo %s.get()\n" % o, "echo %s.undo()\n" % o,
                             "extra = %s.sub(%s.add)\necho extra[0]()\n" % (o, o), "if len extra > 0 { extra[1](%d); echo extra[0](); }\n" % r.randint(0, 9),
                             "os[%d] = make(%d)\n" % (r.randint(0, 1), r.randint(0, 5)), "%s = %s\n" % (o, "os[0]")]))
    return "".join(out).encode()


def many(r):
    """Functions that capture many variables, directly and through several levels of functions."""
    n = r.choice([5, 8, 9, 15, 16, 17, 33, 64, 65, 100, 127, 128, 129, 200])
    vs = ["v%d" % i for i in range(n)]
    params = r.randint(0, min(n, 20))
    depth = r.randint(1, 4)
    body = "".join("let %s = %d\n" % (v, i * 3 + 1) for i, v in enumerate(vs) if i >= params)

    def level(d, seen):
        own = ["w%d_%d" % (d, i) for i in range(r.choice([0, 1, 3, 20]))]
        s = "".join("let %s = %d\n" % (w, 1000 * d + i) for i, w in enumerate(own))
        seen = seen + own
        pick = seen if r.random() < 0.7 else r.sample(seen, r.randint(1, len(seen)))
        pick = list(pick)
        r.shuffle(pick)
        pick = pick[:240]
        if d > 0:
            k = r.randint(1, 2)
            s += "let fs = []\n" + "".join("fs->push(fn() {\n%s})\n" % level(d - 1, [x for x in seen if x != "fs"]) for _ in range(k))
            s += "for f%d <- fs { t += f%d(); }\n" % (d, d)
        for x in r.sample(pick, min(len(pick), r.randint(1, 6))):
            s += "%s %s %s\n" % (x, r.choice(["+=", "-=", "="]), r.choice([str(r.randint(1, 99)), r.choice(pick)]))
        s += "let t%d = 0\n" % d + "".join("t%d = t%d * 31 + %s\n" % (d, d, x) for x in pick)
        return s + "return t%d\n" % d

    src = "let t = 0\nfn outer(%s) {\n%sconst inner = fn() {\n%s}\necho inner()\necho inner()\n%secho t\nreturn inner\n}\n" % (
        ", ".join(vs[:params]), body, level(depth - 1, vs), "".join("echo %s\n" % v for v in r.sample(vs, min(n, 12))))
    call = "outer(%s)" % ", ".join(str(7 * i) for i in range(params))
    return (src + "let a = %s\nlet b = %s\necho a()\necho b()\necho a()\necho t\n" % (call, call)).encode()


def comps(r):
    """Comprehensions whose variable is captured, in every place an expression can be."""
    n = [0]

    def fresh(c="x"):
        n[0] += 1
        return "%s%d" % (c, n[0])

    def fun(names, d):
        w, a = r.random(), r.choice(names)
        if w < 0.4:
            return "fn() {\nreturn %s\n}" % a
        if w < 0.6:
            return "fn() {\n%s = [%s]\nreturn %s\n}" % (a, a, r.choice(names)) if a[0] != "k" else "fn() {\nreturn [%s]\n}" % a
        if w < 0.75:
            return "fn(z) {\nlet y = %s\nreturn fn() {\ny = [y, z, %s]\nreturn y\n}\n}" % (a, r.choice(names))
        if w < 0.85 and d > 0:
            return "fn() {\nreturn %s\n}" % comp(names, d - 1)
        return "hold(fn() {\nreturn %s\n}, fn() {\nreturn %s\n})" % (a, r.choice(names))

    def coll(names, d):
        w = r.random()
        if w < 0.4:
            return "[%s]" % ", ".join(str(r.randint(1, 9)) for _ in range(r.randint(0, 4)))
        if w < 0.55:
            return "'%s'" % "abcd"[:r.randint(0, 4)]
        if w < 0.65:
            return "{.only: %d}" % r.randint(1, 9)
        if w < 0.8 and d > 0:
            return comp(names, d - 1)
        return "(fn() {\nreturn [%s, 5]\n})()" % r.choice(names)

    def comp(names, d):
        x = fresh()
        cl = coll(names, d)
        ns = names + [x, x, x]
        guard = ""
        w = r.random()
        if w < 0.15:
            guard = " if keep(fn() {\nreturn %s\n})" % r.choice(ns)
        elif w < 0.25:
            guard = " if %s != 2" % x
        w = r.random()
        if w < 0.15 and d > 0:
            e = comp(ns, d - 1)
        elif w < 0.3:
            e = "[%s, %s]" % (fun(ns, d), r.choice(ns))
        else:
            e = fun(ns, d)
        if r.random() < 0.2:
            return "{%s: %s for %s <- %s%s}" % (r.choice([x, "'q'"]), e, x, cl, guard)
        return "[%s for %s <- %s%s]" % (e, x, cl, guard)

    def stmt(names, fn, loop):
        w, c, h = r.random(), comp(names, 2), fresh("h")
        if w < 0.35:
            names.append(h)
            return "%s %s = %s\nshow(%s)" % ("let", h, c, h)
        if w < 0.42:
            return "show(%s)" % c
        if w < 0.5:
            return "let %s = [1, %s, 'x'][1]\nshow(%s)" % (h, c, h)
        if w < 0.58:
            return "let %s = 'pre' ~ len %s\necho %s" % (h, c, h)
        if w < 0.68:
            return "for %s <- %s {\nlet i1 = 1\nlet i2 = 2\nshow([%s])\n%s}" % (h, c, h, "break\n" if r.random() < 0.2 else "")
        if w < 0.74:
            return c
        if w < 0.8:
            return "match %s {\n[let %s, ...] {\nshow([%s])\n}\nlet %s {\nshow(%s)\n}\n}" % (c, h, h, fresh(), "[]")
        if w < 0.86:
            return "if %s == 5 {\n%s\n} else {\nlet %s = %s\nshow(%s)\n}" % (c, stmt(list(names), fn, loop), h, comp(names, 1), h)
        if w < 0.92:
            return "for let i%s = 0; i%s < 2; i%s += 1 {\nlet %s = %s\nshow(%s)\n%s}" % (h, h, h, h, c, h, "continue\n" if r.random() < 0.2 else "")
        if fn:
            return "if %s {\nreturn %s\n}" % (r.choice(["p == 1", "true", "false"]), c)
        return "%s = %s\nshow(%s)" % (r.choice(names), c, r.choice(names))

    def body(names, fn):
        L = []
        for _ in range(r.randint(1, 5)):
            L.append(stmt(names, fn, False))
            if r.random() < 0.4:
                v = fresh("v")
                L.append("let %s = '%s'" % (v, v))
                names.append(v)
        return L
    L = ["let held = []", "fn hold(f, g) {\nheld->push(f)\nreturn g\n}", "fn keep(f) {\nheld->push(f)\nreturn true\n}",
         "fn seen(f, d) {\nlet t1 = 't'\nif d == 0 {\nreturn 'deep'\n}\nif mt.get(f) === mt.get(keep) {\nreturn ['fn', seen(f(d), d - 1), seen(f(d), d - 1)]\n}\nif mt.get(f) === mt.get([]) {\nlet o = []\nfor e <- f {\no->push(seen(e, d - 1))\n}\nreturn o\n}\nif mt.get(f) === mt.get({}) {\nlet o = []\nfor e <- f {\no->push(seen(f[e], d - 1))\n}\nreturn len o\n}\nreturn f\n}", "fn show(c) {\necho seen(c, 6)\n}"]
    k = r.randint(0, 2)
    for i in range(k):
        L.append("fn f%d(p) {\n%s\nreturn %s\n}" % (i, "\n".join(body(["p"], True)), r.choice(["p", comp(["p"], 1)])))
    L.append("let g = 'g'")
    names = ["g"]
    for i in range(k):
        L.append("let r%d = f%d(%d)\nlet s%d = f%d('s')" % (i, i, r.randint(0, 1), i, i))
    L += body(names, False)
    L.append("for h <- held {\nshow(h())\n}")
    return ("\n".join(L) + "\n").encode()


dcheck.main("C05", "distinct programs of closures over shared and private variables whose trace equals the reference model's",
            {"typed": (1500, 50000, typed), "webs of functions": (3500, 120000, web), "scope exits": (2500, 80000, exits),
             "objects of functions": (1000, 30000, counters), "many captures": (600, 20000, many), "comprehensions": (1500, 50000, comps)})
