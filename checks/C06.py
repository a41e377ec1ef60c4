"""C06: match runs the first arm whose pattern and guard accept, with its bindings."""
from lib import dcheck, gen

SC = ["0", "1", "2", "-1", "-7", "300", "true", "false", "undef", "'a'", "'bc'", "''", "1.5", "-2.5", "1.0", "0.0", "'\\x00'", "9223372036854775807"]
TY = {"int": lambda v: v.lstrip("-").isdigit(), "float": lambda v: "." in v and v[0] != "'", "bool": lambda v: v in ("true", "false"),
      "str": lambda v: v[0] == "'", "list": lambda v: False, "table": lambda v: False}
KEYS = [".a", ".b", "1", "2", "true", "'x y'", "1.5", "-3", "undef", "'k'"]


def value(r, d):
    w = r.random()
    if d <= 0 or w < 0.35:
        return r.choice(SC)
    if w < 0.75:
        return [value(r, d - 1) for _ in range(r.randint(0, 3))]
    return {k: value(r, d - 1) for k in r.sample(KEYS, r.randint(0, 3))}


def text(v):
    if isinstance(v, list):
        return "[" + ", ".join(map(text, v)) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join(k + ": " + (text(x) if x != "undef" else "'u'") for k, x in v.items()) + "}"
    return v


class P:
    def __init__(self, r):
        self.r, self.n = r, 0

    def bind(self, names):
        self.n += 1
        n = "m%d" % self.n
        names.append(n)
        return self.r.choice(["let ", "let ", "const "]) + n

    def pat(self, v, names, d=3, hit=0.85):
        """A pattern that mostly accepts v."""
        r = self.r
        if r.random() > hit:
            v = value(r, 2)
        w = r.random()
        if w < 0.1:
            return "*"
        if w < 0.3:
            return self.bind(names)
        if w < 0.4 and d > 0:
            # alternatives bind nothing, or the same names in the same way
            a = []
            for _ in range(r.randint(2, 3)):
                a.append(self.pat(v if r.random() < 0.5 else value(r, 2), None, d - 1) if True else "")
            s = " | ".join(a)
            return "(" + s + ")" if r.random() < 0.4 else s
        if w < 0.46 and d > 0 and names is not None:
            self.n += 1
            n = "%s m%d" % (r.choice(["let", "const"]), self.n)
            names.append("m%d" % self.n)
            s = r.choice(["[%s, 1] | [%s, *] | [1, %s, ...]", "%s | %s", "{.a: %s} | {.b: %s, ...} | [%s]", "[[%s], ...] | [{.a: %s}] | %s", "[0, %s, 2] | [0, %s, ...]"])
            return s.replace("%s", n)
        if isinstance(v, list):
            if w < 0.5:
                return "list"
            k = len(v)
            dots = r.random() < 0.3
            cut = r.randint(0, k) if dots else k
            ps = [self.pat(x, names, d - 1, 0.95) for x in v[:cut]]
            if r.random() < 0.1:
                ps.append("*")
            if dots:
                ps.append("...")
            return "[" + ", ".join(ps) + "]"
        if isinstance(v, dict):
            if w < 0.5:
                return "table"
            ks = [k for k in v]
            r.shuffle(ks)
            dots = r.random() < 0.4
            if dots:
                ks = ks[:r.randint(0, len(ks))]
            if r.random() < 0.12:
                ks.append(r.choice([k for k in KEYS if k not in ks]))
            ps = [k + ": " + self.pat(v.get(k, "undef") if v.get(k) != "undef" else "'u'", names, d - 1, 0.95) for k in ks]
            if dots:
                ps.append("...")
            return "{" + ", ".join(ps) + "}"
        if w < 0.7:
            for t, f in TY.items():
                if f(v):
                    return t
        if v == "9223372036854775807" or v == "0" and r.random() < 0.3:
            return v
        return v

    def nobind(self, s):
        return s


def fix(p, r):
    """bind() with names None gives '*'."""
    return p


class P2(P):
    def bind(self, names):
        if names is None:
            return "*"
        return P.bind(self, names)


def matches(r):
    out = ["let s0 = 's0'\nlet s1 = 's1'\nfn t(v) {\n echo 'subject'\n return v\n}\nfn g(n, v) {\n echo 'guard ' ~ n\n return v\n}\n"]
    fn = r.random() < 0.4
    if fn:
        out.append("fn f(p) {\nlet q = 'q'\n")
    for k in range(r.randint(1, 4)):
        v = value(r, 3)
        p = P2(r)
        out.append("let before%d = %d\n" % (k, k))
        loop = r.random() < 0.25
        subj = text(v)
        if loop:
            vs = [v] + [value(r, 2) for _ in range(r.randint(1, 3))]
            out.append("for e%d <- [%s] {\nlet inner%d = 'i'\n" % (k, ", ".join(map(text, vs)), k))
            subj = "e%d" % k
        out.append("match %s {\n" % (subj if r.random() < 0.5 else "t(%s)" % subj))
        for a in range(r.randint(1, 5)):
            names = []
            pt = p.pat(v, names, 3, 0.55)
            gd = ""
            if r.random() < 0.35:
                gd = " if " + r.choice(["g(%d, %s)" % (a, r.choice(["true", "false"])), "s0 == 's0'", "false", "true"] + ["%s == %s" % (n, r.choice(SC)) for n in names]
                                        + ["g(%s, false)" % n for n in names])
            body = "echo 'arm %d'\n" % a + "".join("echo %s\n" % n for n in names)
            if r.random() < 0.3:
                body += "let loc = [%s]\necho loc\n" % ", ".join(names)
            if r.random() < 0.2:
                body += "s0 ~= 'x'\n"
            if loop and r.random() < 0.3:
                body += r.choice(["break\n", "continue\n"])
            elif fn and r.random() < 0.2:
                body += "return %s\n" % (names[0] if names else "7")
            if r.random() < 0.15:
                body += "match %s {\n%s {\necho 'inner'\n}\n* {\necho 'other'\n}\n}\n" % (names[0] if names else "s1", r.choice(["int", "'s1'", "[*, ...]", "let zz"]))
            out.append("%s%s {\n%s}\n" % (pt, gd, body))
        out.append("}\n")
        if loop:
            out.append("echo inner%d\n}\n" % k)
        out.append("echo [s0, s1, before0, before%d]\n" % k)
    if fn:
        out.append("echo [p, q]\nreturn before0\n}\necho f('arg')\n")
    out.append("let last = 'last'\necho [s0, last]\n")
    return "".join(out).encode()


def typed(r):
    w = dict(let=8, assign=6, aug=4, multi=2, echo=6, if_=4, while_=2, forc=2, forin=4, match=22, fn=3, call=4, mut=2, jump=5,
             ret=3, closure=1, assert_=0, comp=0, setmt=0, swap=1, letfnuse=0)
    return gen.program(r, w, budget=45, depth=2, feats=frozenset(["list", "call", "table", "float"]))


def scalars(r):
    """Every scalar against every scalar pattern, and every type name."""
    vs = r.sample(SC, 6) + ["[]", "{}", "[1]", "fn() {}", "collections.set(1)"]
    ps = r.sample(SC, 5) + r.sample(list(TY), 4) + ["*"]
    r.shuffle(ps)
    arms = "".join("%s {\necho 'p%d'\n}\n" % (r.choice(["%s", "(%s)", "%s | " + r.choice(SC)]) % p, i) for i, p in enumerate(ps))
    return ("for v <- [%s] {\nmatch v {\n%s}\n}\n" % (", ".join(vs), arms)).encode()


def wide(r):
    """Long patterns, many bindings, many arms, many literals (beyond 127 and 255 of each)."""
    out = []
    base = r.choice([0, 0, 100, 126, 130, 255, 260])
    if base:
        out.append("let consts = [%s]\n" % ", ".join(r.choice(["%d", "%d.5", "'c%d'"]) % (5000 + i) for i in range(base)))
    k = r.choice([3, 16, 17, 40, 64, 100, 126, 127, 128, 129, 130, 200, 240])
    el = lambda i: r.choice(["%d" % (i * 7), "'e%d'" % i, "%d.5" % i, "undef", "true", "[%d]" % i])
    vals = [el(i) for i in range(k)]

    def pats(vals, nb, prefix):
        """patterns for the elements, nb of which bind"""
        where = set(r.sample(range(len(vals)), min(nb, len(vals))))
        return ["let %s%d" % (prefix, i) if i in where else r.choice([v, v, "*", v + " | 'never%d'" % i, "'no%d' | %s" % (i, v)]) for i, v in enumerate(vals)], sorted(where)

    def arm(tag):
        nb = r.choice([0, 1, 2, 5, len(vals) // 2, len(vals)])
        ps, w = pats(vals, nb, "m")
        if r.random() < 0.5:
            ps[r.randrange(len(ps))] = r.choice(["12345", "'miss'", "[let zz]", "{.a: 1}"])
            w = [i for i in w if ps[i].startswith("let m")]
        dots = r.random() < 0.3
        if dots:
            cut = r.randint(0, len(ps))
            ps = ps[:cut] + ["..."]
            w = [i for i in w if i < cut]
        p = "[" + ", ".join(ps) + "]"
        if not w and r.random() < 0.6:
            # an alternative that fails late, before one that may accept
            q, _ = pats(vals, 0, "x")
            q[r.choice([0, len(q) // 2, len(q) - 1])] = "'late'"
            p = "[" + ", ".join(q) + "] | " + p
        g = ""
        if r.random() < 0.3:
            g = " if " + r.choice(["false", "true"] + (["m%d == %s" % (w[-1], vals[w[-1]]), "m%d == 'zz'" % w[0]] if w else []))
        show = ["m%d" % i for i in sorted(set(w[:2] + w[-2:] + w[len(w) // 2:len(w) // 2 + 1]))]
        return "%s%s {\n let loc = 'l%s'\n echo ['arm %s', loc%s]\n}\n" % (p, g, tag, tag, "".join(", " + n for n in show))
    fn = r.random() < 0.5
    if fn:
        out.append("fn f(v) {\n let q = 'q'\n")
    else:
        out.append("let v = [%s]\nlet q = 'q'\n" % ", ".join(vals))
    out.append("match v {\n")
    for i in range(r.randint(1, 4)):
        out.append(arm(i))
    for i in range(r.choice([0, 0, 0, 130, 260])):
        out.append("%s { echo 'few %d'; }\n" % (r.choice(["[%d]", "'s%d'", "%d", "[%d, *]"]) % (9000 + i), i))
    out.append(r.choice(["", "* { echo 'other'; }\n", "let all { echo len all; }\n", "list { echo 'list'; }\n"]) + "}\n")
    out.append("let after = 'after'\necho [q, after]\n")
    if fn:
        out.append("return after\n}\necho f([%s])\necho f(9005)\necho f('s9')\necho f([9017])\n" % ", ".join(vals))
        if r.random() < 0.5 and vals:
            out.append("echo f([%s])\n" % ", ".join(vals[:-1] + ["'late'"]))
    return "".join(out).encode()


def tables(r):
    """Alternatives of table patterns that fail at any of their entries, before others that may accept."""
    keyof = lambda i: r.choice(["k%d", "k%d", "k%d", "%d", "%d.5", "x y%d"]) % i
    out = []
    for m in range(r.randint(1, 3)):
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 17, 40, 130])
        ks = []
        for i in range(n):
            k = keyof(i)
            ks.append("'%s'" % k if " " in k else "." + k if k[0] == "k" else k)
        vals = [r.choice(["1", "'v'", "[1, 2]", "{.a: 1}", "undef", "2.5", "false"]) if n < 20 else str(i) for i in range(n)]
        if "undef" in vals and r.random() < 0.7:
            vals = [v if v != "undef" else "0" for v in vals]
        sub = {"1": ["1", "int", "*", "2 | 1"], "'v'": ["'v'", "str", "*"], "[1, 2]": ["[1, *]", "list", "[...]", "[*, 2, ...]"], "{.a: 1}": ["{.a: int}", "table", "{...}", "{.b: 1} | {.a: *}"],
               "undef": ["undef", "*"], "2.5": ["2.5", "float", "*"], "false": ["false", "bool", "*"], "0": ["0", "int"]}

        def pat(kind, bind=None):
            idx = list(range(n))
            if r.random() < 0.5:
                r.shuffle(idx)
            dots = kind == "part" or r.random() < 0.3
            if dots:
                idx = idx[:r.randint(0, n)]
            es = [[ks[i], r.choice(sub.get(vals[i], [vals[i], "*"]))] for i in idx]
            at = r.choice([0, len(es) // 2, max(len(es) - 1, 0), r.randrange(len(es) + 1)])
            if kind == "missing":
                es.insert(at, [r.choice([".absent", "77777", "'k0x'", "99.5"]), r.choice(["*", "1", "[1, [2, *]]", "{.k: {.l: 'x'}}", "1 | 2 | 3", "undef"])])
            elif kind == "differs" and es:
                es[at % len(es)][1] = r.choice(["'other'", "[9, [8, 7], *]", "{.zz: 1, .yy: [1]}", "4 | [5] | {.six: 6}", "-1"])
            elif kind == "short":
                es, dots = es[:max(0, len(es) - 1)], False
            elif kind == "long":
                es.append([".more", "*"])
                dots = False
            if bind and es:
                es[at % len(es)][1] = "let " + bind
                names.append(bind)
            return "{%s}" % ", ".join([k + ": " + v for k, v in es] + (["..."] if dots else []))
        t = "{%s}" % ", ".join(k + ": " + v for k, v in zip(ks, vals))
        wrap = r.choice(["%s", "%s", "[%s, 'after']", "{.in: %s, .z: 3}", "[0, [%s], 'after', 1]"])
        pw = {"%s": "%s", "[%s, 'after']": r.choice(["[%s, 'after']", "[%s, let z]", "[%s, *]", "[%s, 'no']"]), "{.in: %s, .z: 3}": r.choice(["{.in: %s, .z: 3}", "{.z: int, .in: %s}", "{.in: %s, ...}", "{.in: %s, .z: let z}"]),
              "[0, [%s], 'after', 1]": r.choice(["[*, [%s], str, let z]", "[0, [%s], 'after', 1]", "[0, [%s], ...]"])}[wrap]
        out.append("match %s {\n" % (wrap % t))
        for a in range(r.randint(1, 4)):
            names = []
            ps = [pat(r.choice(["missing", "missing", "differs", "short", "long"])) for _ in range(r.randint(0, 3))]
            if not ps and r.random() < 0.6:
                ps = [pat(r.choice(["all", "part"]), "b%d" % a)]
            else:
                ps.append(pat(r.choice(["all", "part", "differs", "missing"])))
            if len(ps) > 1:
                r.shuffle(ps)
            p = pw % (" | ".join(ps) if len(ps) == 1 or pw == "%s" else "(" + " | ".join(ps) + ")" if r.random() < 0.5 else " | ".join(ps))
            if "let z" in p:
                names.append("z")
            out.append("%s {\necho ['arm %d'%s]\n}\n" % (p, a, "".join(", " + x for x in names)))
        out.append("}\necho 'next'\n")
    return "".join(out).encode()


def arms(r):
    """Many arms that look at the same value: bindings of parts, wildcards and whole values, with guards that mostly fail."""
    out = ["let log = []\nfn nay(x) {\nlog->push(x)\nreturn false\n}\nfn yea(x) {\nlog->push(x)\nreturn true\n}\n"]
    fn, loop = r.random() < 0.4, r.random() < 0.4
    if fn:
        out.append("fn f(p, q) {\nlet z0 = p\n")
    else:
        out.append("let p = 'p'\nlet q = 'q'\n")
    fs = r.random() < 0.3
    for m in range(r.randint(1, 3)):
        a, b, c = (r.choice(["1", "2", "'a'", "'b'", "undef", "true", "1.5"]) for _ in range(3))
        subj, whole, parts = r.choice([
            ("[%s, %s]" % (a, b), "[%s, %s]" % (a, b), ["[{0}, {1}]", "[{0}, ...]", "[%s, {0}]" % a, "[{0}, %s]" % b, "[{0}, {1}] | [{0}, {1}, *]", "[*, {0}]"]),
            ("{.k: %s, .l: [%s]}" % (b, c), "{.k: *, .l: [*]}", ["{.k: {0}, ...}", "{.l: {0}, ...}", "{.k: {0}, .l: [{1}]}", "{.l: [{0}], ...}", "{.k: {0}, .l: {1}}", "{...}"]),
            ("[[%s, %s], %s]" % (a, b, c), "[[*, %s], *]" % b, ["[[{0}, {1}], {2}]", "[{0}, *]", "[[*, {0}], *]", "[{0}, {1}]", "[[{0}, ...], ...]", "[list, {0}]"]),
            (a, a, ["{0}", "({0})", "undef | {0}"])])
        if "'" not in subj and r.random() < 0.2:
            subj = "[%s, 'a']" % subj
            whole, parts = "[*, 'a']", ["[{0}, {1}]", "[{0}, 'a']", "[{0}, ...]"]
        if loop:
            out.append("for i%d <- [1, 2, 3] {\n" % m)
        out.append("match %s {\n" % subj)
        n = r.randint(2, 7)
        for k in range(n):
            names = []
            w = r.random()
            if w < 0.4:
                t = r.choice(parts)
                names = ["n%d%d%d" % (m, k, j) for j in range(3) if "{%d}" % j in t]
                pat = t
                for j, x in enumerate(names):
                    pat = pat.replace("{%d}" % j, r.choice(["let ", "let ", "const "]) + x)
                if "| " in pat and pat.count(names[0] if names else "~") == 1:
                    pat = pat.replace("undef | ", "")
                if pat.count("let ") + pat.count("const ") > len(names):
                    # the same kind of declaration in every alternative
                    pat = pat.replace("const ", "let ")
            elif w < 0.6:
                pat = "*"
            elif w < 0.7:
                pat, names = "let n%d%d" % (m, k), ["n%d%d" % (m, k)]
            elif w < 0.9:
                pat = whole
            else:
                pat = r.choice(["int", "list", "table", "str", "1", "'a'", "[...]", "[*, *]", "{...}"])
            x = r.choice(names + ["p", "q", "'lit'"])
            w = r.random()
            g = " if nay(%s)" % x if w < 0.6 else " if yea(%s)" % x if w < 0.7 else " if %s == %s" % (x, r.choice([a, b, "'p'"])) if w < 0.8 else ""
            if fs and names and r.random() < 0.5:
                g = r.choice([" if (fn() {\nreturn nay(%s)\n})()", " if hold(fn() {\nreturn %s\n})", " if hold(fn() {\nreturn %s\n}, true)"]) % x
            body = "echo ['arm %d', p, q%s]\n" % (k, "".join(", " + y for y in names))
            if r.random() < 0.3:
                body += "let w = %s\necho w\n" % x
            if fs and names and r.random() < 0.5:
                body += "fs->push(fn() {\nreturn %s\n})\n" % names[0]
            if r.random() < 0.15:
                body += r.choice(["continue\n", "break\n"]) if loop else "return %s\n" % x if fn else ""
            out.append("%s%s {\n%s}\n" % (pat, g, body))
        out.append("}\n")
        out.append("let after%d = 'after'\n" % m if not loop else "")
        if loop:
            out.append("}\n")
        out.append("echo [p, q, log]\n")
        if r.random() < 0.3:
            out.append("p = 'p%d'\n" % m)
    if fn:
        out.append("return 'end'\n}\necho f('p', 'q')\necho f(1)\n")
    if fs:
        out.insert(0, "let fs = []\nfn hold(h, y) {\nfs->push(h)\nreturn y ?? false\n}\n")
        out.append("for h <- fs {\necho h()\n}\n")
    return "".join(out).encode()


dcheck.main("C06", "distinct programs of match statements (nested patterns, alternatives, guards, bindings) whose trace equals the reference model's",
            {"patterns": (6000, 200000, matches), "in programs": (2000, 60000, typed), "scalars": (1500, 30000, scalars), "wide": (700, 15000, wide), "arms": (2500, 80000, arms), "tables": (2000, 60000, tables)})
