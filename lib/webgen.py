"""Closures over variables of every nesting level, kept and called after their scopes ended."""


class Web:
    """Functions created at every nesting level over the variables around them, all kept in one list and called in the end."""

    def __init__(self, r):
        self.r, self.n = r, 0

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def use(self, vs):
        r = self.r
        v = r.choice(vs)
        return r.choice(["%s += %d" % (v, r.randint(1, 9)), "%s = %s * 2 + %d" % (v, v, r.randint(0, 3)), "%s, %s = %s, %s" % (v, r.choice(vs), r.choice(vs), v),
                         "echo %s" % v])

    def lit(self, vs, d):
        """A function literal over some of vs."""
        r = self.r
        ps = [self.name("p") for _ in range(r.randint(0, 2))]
        inner = vs + ps
        body = []
        for _ in range(r.randint(1, 3)):
            w = r.random()
            if w < 0.45 and inner:
                body.append(self.use(r.sample(inner, min(len(inner), 4))))
            elif w < 0.6:
                v = self.name("l")
                body.append("let %s = %s" % (v, r.choice(inner) if inner else "0"))
                inner = inner + [v]
            elif w < 0.8 and d > 0:
                body.append("keep->push(%s)" % self.lit(inner, d - 1))
            elif w < 0.9 and d > 0:
                f = self.name("g")
                body.append("let %s = %s\n%s(1, 2)" % (f, self.lit(inner, d - 1), f))
            else:
                body.append("if %s > 40 { return -1; }" % r.choice(inner or ["0"]))
        if r.random() < 0.3 and d > 0:
            ret = self.lit(inner, d - 1)
            body.append("keep->push(%s)" % ret)
        body.append("return " + (r.choice(inner) if inner else "0"))
        return "fn(" + ", ".join(ps) + ") {\n" + "\n".join(body) + "\n}"

    def block(self, vs, d, loops):
        r = self.r
        out = []
        vs = list(vs)
        for _ in range(r.randint(1, 4)):
            w = r.random()
            if w < 0.25:
                v = self.name("v")
                out.append("let %s = %s" % (v, r.choice(vs + [str(r.randint(0, 9))])))
                vs.append(v)
            elif w < 0.5 and vs:
                out.append("keep->push(%s)" % self.lit(r.sample(vs, min(len(vs), 5)), 2))
            elif w < 0.6 and vs:
                out.append(self.use(vs))
            elif w < 0.85 and d > 0:
                v = self.name("i")
                h, e = r.choice([("for %s <- [1, 2, 3] {" % v, "}"), ("for let %s = 0; %s < 3; %s += 1 {" % (v, v, v), "}"),
                                 ("if true {\nlet %s = 5" % v, "}"), ("match [3, 4] {\n[let %s, *] {" % v, "}\n}"),
                                 ("match 8 {\nlet %s if %s > 100 {}\nlet %s {" % (v + "x", v + "x", v), "}\n}"),
                                 ("(fn(%s) {" % v, "})(6)")])
                lp = h.startswith("for")
                inner = self.block(vs + [v], d - 1, loops + ([v] if lp else []) if not h.startswith("(fn") else [])
                out.append(h + "\n" + inner + e)
            elif loops:
                out.append("if %s == 2 {\n%s%s\n}" % (r.choice(loops), "let z%d = 1\nkeep->push(fn() { z%d += 1; return z%d; })\n" % ((self.n,) * 3) if r.random() < 0.5 else "",
                                                      r.choice(["break", "continue"])))
        if not out:
            out.append("echo 'x'")
        return "\n".join(out) + "\n"

    def program(self):
        r = self.r
        s = "let keep = []\n" + self.block(["a0"] if False else [], 3, [])
        s += "let n = 0\nfor f <- keep {\nn += 1\nif n > 60 { break; }\necho f(n, 2)\n}\nfor let j = 0; j < len keep && j < 20; j += 1 {\necho keep[j](1)\n}\n"
        return s
