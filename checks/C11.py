"""C11: iteration and comprehensions visit each element once, in order."""
from lib import dcheck, gen, sessions, vals

W = dict(let=5, assign=6, aug=4, multi=2, echo=10, if_=5, while_=2, forc=4, forin=14, match=2, fn=3, call=4, mut=2, jump=9, ret=4, closure=2, assert_=0, comp=12,
         setmt=0, swap=0, letfnuse=1)


def typed(r):
    return gen.program(r, W, budget=45, depth=2, feats=frozenset(["list", "comp", "call", "iife", "slice", "table"]))


class Loops:
    """Nested loops of every kind over every collection, with every kind of exit."""

    def __init__(self, r):
        self.r, self.n = r, 0

    def new(self, p="v"):
        self.n += 1
        return p + str(self.n)

    def coll(self, vs):
        """An ordered collection."""
        r = self.r
        w = r.random()
        if w < 0.2:
            return "[%s]" % ", ".join(r.choice(vs + ["1", "2", "'a'", "undef", "[1]"]) for _ in range(r.choice([0, 1, 2, 3, 3, 5])))
        if w < 0.45:
            return "[%s]" % ", ".join(str(i) for i in range(r.choice([0, 1, 2, 3, 4])))
        if w < 0.65:
            return r.choice(["''", "'a'", "'abc'", "'a\\x00b'", "'\\xff\\xfe'", "'xabcx'[1:4]", "'abc'->split('b')", "'a b c'->split()", "'q' ~ 'r'"])
        if w < 0.75:
            return r.choice(["{}", "{.k: 1}", "{5: undef}", "{1.5: 2}", "{true: 0}"])
        if w < 0.9:
            return self.comp(vs, 1)
        return r.choice(["ident([1, 2, 3])", "[1, 2] + [3]", "[4, 5, 6][1:]", "(true ? [7, 8] : 'no')", "xs", "xs->copy()", "mk()"])

    def cond(self, vs):
        r = self.r
        if not vs:
            return r.choice(["true", "false"])
        v = r.choice(vs)
        return r.choice(["%s == 1" % v, "%s != 2" % v, "%s == 'b'" % v, "%s" % v, "!%s" % v, "true", "ident(%s) == 0" % v, "%s != undef" % v, "%s == 2 || %s == 'a'" % (v, r.choice(vs))])

    def comp(self, vs, d):
        r = self.r
        v = self.new("c")
        inner = vs + [v]
        e = r.choice(["%s" % v, "[%s, %s]" % (v, r.choice(inner)), "ident(%s)" % v, "'' ~ %s" % v])
        if d > 0 and r.random() < 0.3:
            e = self.comp(inner, d - 1)
        g = " if " + self.cond(inner) if r.random() < 0.5 else ""
        c = r.choice(["[0, 1, 2, 3]", "'abc'", "[]", "xs", "[[1], [2]]", "{.a: 1}", "''"] + ([self.comp(vs, d - 1)] if d > 0 and r.random() < 0.4 else []))
        if r.random() < 0.15:
            return "{tagk(%s): %s for %s <- %s%s}" % (v, e, v, r.choice(["[1]", "[3]", "'a'", "[]"]), g)
        return "[%s for %s <- %s%s]" % (e, v, c, g)

    def body(self, vs, d, infn, inloop):
        r = self.r
        s = ""
        for _ in range(r.randint(1, 3)):
            w = r.random()
            if w < 0.35 and vs:
                s += "echo [%s]\n" % ", ".join(r.sample(vs, min(len(vs), r.randint(1, 4))))
            elif w < 0.5:
                s += "echo %s\n" % self.comp(vs, 2)
            elif w < 0.75 and d > 0:
                s += self.loop(vs, d - 1, infn)
            elif w < 0.85 and inloop:
                s += "if %s {\n%s\n}\n" % (self.cond(vs), r.choice(["break", "continue"] + (["return %s" % (r.choice(vs) if vs else "1")] if infn else [])))
            elif w < 0.9:
                x = self.new("l")
                s += "let %s = %s\n" % (x, r.choice(vs) if vs else "0")
                vs = vs + [x]
            elif w < 0.95 and d > 0:
                f = self.new("f")
                s += "let %s = fn(q) {\n%sreturn q\n}\necho %s(%s)\n" % (f, self.body(vs + ["q"], d - 1, True, False), f, r.choice(vs) if vs else "3")
            elif r.random() < 0.25:
                s += r.choice(["for z <- 5 {}\n", "for z <- undef { echo 1; }\n", "echo [z for z <- 1.5]\n", "for z <- true {}\n", "for z <- ident {}\n", "echo {z: 1 for z <- 3}\n", "echo xs[99]\n"])
            else:
                s += "n += 1\n"
        return s

    def loop(self, vs, d, infn):
        r = self.r
        w = r.random()
        v = self.new()
        if w < 0.7:
            return "for %s <- %s {\n%s}\n" % (v, self.coll(vs), self.body(vs + [v], d, infn, True))
        if w < 0.85:
            return "for let %s = 0; %s < %d; %s += 1 {\n%s}\n" % (v, v, r.randint(0, 3), v, self.body(vs + [v], d, infn, True))
        return "let %s = 0\nwhile %s < %d {\n%s += 1\n%s}\n" % (v, v, r.randint(0, 3), v, self.body(vs + [v], d, infn, True))

    def program(self):
        r = self.r
        return ("let n = 0\nlet xs = [1, 'b', 2]\nfn ident(x) {\n return x\n}\nfn tagk(x) {\n return x\n}\nfn mk() {\n echo 'made'\n return [1, 2]\n}\n"
                + "fn run(p) {\n%sreturn p\n}\n" % self.body(["p"], 3, True, False)
                + self.body([], 4, False, False) + "echo run(2)\n" + self.body([], 3, False, False) + "echo run('a')\necho n\n")


def loops(r):
    return Loops(r).program().encode()


def elements(r):
    """Every element of a list or string of any size, with its index; every key of a table."""
    out = [vals.SHOW]
    n = r.choice([0, 1, 2, 3, 7, 8, 9, 16, 40, 100])
    for k in range(3):
        w = r.random()
        if w < 0.35:
            es = [vals.val(r, r.choice(["int", "float", "str", "bool", "undef"])) for _ in range(n)]
            c = "[" + ", ".join(es) + "]"
        elif w < 0.65:
            c = "'" + "".join("\\x%02x" % r.randrange(256) for _ in range(n)) + "'"
        else:
            c = "{" + ", ".join("%s: %d" % (r.choice([str(i * 7), "'k%d'" % i, "%d.5" % i]), i) for i in range(n)) + "}"
        t = w >= 0.65
        p = "'~' ~ " if t else ""
        out.append("let c%d = %s\nlet i%d = 0\nfor x <- c%d {\n i%d += 1\n echo %s(x ~ '')\n}\necho i%d\necho len [x for x <- c%d]\n" % (k, c, k, k, k, p, k, k))
        if not t:
            out.append("let j%d = 0\nfor x <- c%d { if x != c%d[j%d] { echo 'bad'; }; j%d += 1; }\necho [x for x <- c%d if x != undef]\necho j%d == len c%d\n" % ((k,) * 8))
        else:
            out.append("let s%d = 0\nfor x <- c%d { s%d += c%d[x]; }\necho s%d\nlet d%d = {x: c%d[x] for x <- c%d}\necho d%d == c%d\nlet e%d = {x: 1 for x <- c%d if c%d[x] %% 2 == 0}\necho len e%d\nfor x <- e%d { echo '~' ~ x; }\n" % ((k,) * 15))
    return "".join(out).encode("latin-1")


def changes(r):
    """A collection grown or shrunk behind the position, replaced while it is iterated, and shared by several loops."""
    n = r.randint(1, 6)
    k = r.randrange(7)
    src = [
        "let l = [%s]\nfor x <- l {\n echo x\n l = [9, 9, 9, 9]\n}\necho l\n" % ", ".join(map(str, range(n))),
        "let l = [%s]\nfor x <- l {\n for y <- l {\n  if y == %d { break; }\n  if y == %d { continue; }\n  echo x * 10 + y\n }\n}\n" % (", ".join(map(str, range(n))), r.randint(0, n), r.randint(0, n)),
        "let l = [%s]\nlet m = []\nfor x <- l { m->push(x); for y <- m { echo x ~ y; }; }\necho m\n" % ", ".join(map(str, range(n))),
        "let s = 'abcdef'[:%d]\nfor c <- s {\n s = s ~ c\n for d <- s { if d == c { break; }; echo c ~ d; }\n}\necho s\n" % n,
        "let l = [%s]\nfn inner(x) {\n for y <- l {\n  if y == x { return y; }\n  for z <- 'ab' { if y == %d { return z; }; }\n }\n return undef\n}\nfor x <- l { echo inner(x); }\necho [inner(x) for x <- l]\n" % (", ".join(map(str, range(n))), r.randint(0, n)),
        "let l = [[x, [y for y <- [0, 1, 2] if y <= x]] for x <- [0, 1, 2, 3] if x != %d]\necho l\nfor p <- l { for q <- p[1] { echo p[0] - q; }; }\necho [[[z + y for z <- [x]] for y <- [x, x + 1]] for x <- [%d, 5]]\n" % (r.randint(0, 3), n),
        "let fs = []\nfor x <- [1, 2, 3] { fs->push(fn() { x += 1; return x; }); }\nlet gs = [fn() { y += 1; return y; } for y <- [10, 20]]\necho [f() for f <- fs]\necho [f() for f <- gs + fs]\necho [f() for f <- gs]\n",
    ][k]
    return src.encode()


def resized(r):
    """A list pushed to, popped from, inserted into, removed from and cleared by the loops over it, often below the position, under one or several loops and names."""
    n = r.randint(0, 12)
    out = ["let l = [%s]\nlet m = l\nlet n = 0\nlet box = {.l: l}\nfn id(x) {\n return x\n}\n" % ", ".join(r.choice([str(i), str(i), "'%d'" % i, "undef", "[%d]" % i]) for i in range(n))]

    def op():
        w = r.random()
        t = r.choice(["l", "l", "m", "box.l"])
        if w < 0.35:
            return "if len l > 0 { %s->pop(); }" % t if r.random() < 0.5 else "; ".join(["if len l > 0 { %s->pop(); }" % t] * r.randint(2, 6))
        if w < 0.55:
            return "%s->push(%s)" % (t, r.choice(["n", "100 + n", "'p'", "undef"]))
        if w < 0.65:
            return "%s->clear()" % t
        if w < 0.75:
            return "if len l > %d { %s->remove(%d); }" % (k, t, k) if (k := r.randint(0, 3)) >= 0 else ""
        if w < 0.83:
            return "%s->insert(%d, 'i')" % (t, 0)
        if w < 0.88:
            return "l->extend([7, 8])" if r.random() < 0.5 else "%s->reverse()" % t
        if w < 0.94:
            return "if len l > 0 { l[-1] = n; }"
        return "l = %s" % r.choice(["[]", "l->copy()", "[5, 6]"])

    def ops(d):
        s = ""
        for _ in range(r.randint(1, 3)):
            w = r.random()
            if w < 0.5:
                s += "if n == %d { %s; }\n" % (r.randint(1, 8), op())
            elif w < 0.65:
                s += "if n %% %d == 0 { %s; }\n" % (r.randint(1, 4), op())
            elif w < 0.75:
                s += op() + "\n"
            elif w < 0.9 and d > 0:
                s += loop(d - 1)
            else:
                s += "echo len l\n"
        return s

    def loop(d):
        v = "x%d" % d
        if r.random() < 0.2:
            return "echo [(fn(q) {\nn += 1\nif n > 60 { return 0; }\n%sreturn q\n})(%s) for %s <- %s if n < 60]\n" % (ops(0), v, v, r.choice(["l", "m"]))
        return "for %s <- %s {\nn += 1\nif n > 60 { break; }\necho '~' ~ (id(%s) ?? 'u')\n%s}\n" % (v, r.choice(["l", "l", "m", "box.l"]), v, ops(d))
    out.append(loop(2))
    out.append("echo 'l ' ~ len l ~ ' ' ~ len m ~ ' ' ~ n\nfor x <- l { echo x; }\nfor x <- m { echo x; }\n")
    return "".join(out).encode()


dcheck.main("C11", "distinct programs of loops and comprehensions whose trace equals the reference model's",
            {"typed": (1800, 50000, typed), "loops": (3500, 120000, loops), "elements": (1200, 30000, elements), "changing collections": (300, 3000, changes), "resized lists": (1500, 40000, resized),
             "sessions of loops": (600, 20000, sessions.tolerant(loops))})
