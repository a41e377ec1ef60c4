"""C12: metatables decide exactly the operations they name."""
import re
from lib import dcheck, sessions
from lib.sessions import hot

BIN = {"+": "__add", "-": "__sub", "*": "__mul", "/": "__div", "//": "__idiv", "%": "__mod", "**": "__pow", "|": "__bor", "&": "__band", "^": "__bxor", "&^": "__bandnot",
       "<<": "__bshl", ">>": "__bshr", "<": "__lt", "<=": "__le", ">": "__gt", ">=": "__ge", "==": "__eq", "!=": "__eq"}
UN = {"-": "__neg", "+": "__pos", "^": "__bnot", "len ": "__len"}
ENT = sorted(set(BIN.values()) | set(UN.values())) + ["__call", "__get", "__set", "tostr"]


class Obj:
    """Objects with logging metatables; every operation tells which entry ran with which operands."""

    def __init__(self, r):
        self.r = r
        self.out = []

    def ret(self, e):
        r = self.r
        w = r.random()
        if w < 0.35:
            return "'%s!'" % e.strip("_")
        if w < 0.5:
            return "a"
        if w < 0.6:
            return "b"
        if w < 0.8:
            return r.choice(["true", "false", "7", "undef", "1.5", "true", "false"])
        if w < 0.9:
            return r.choice(["[1]", "x0", "{}"])
        return "1, 2"

    def put(self, m, e):
        t = self.entry(e)
        self.ents[m][e] = t.startswith("fn") or t == "callable"
        return "%s.%s = %s" % (m, e, t)

    def entry(self, e):
        r = self.r
        np = {"__call": r.randint(0, 4), "__set": 3}.get(e, 1 if e in UN.values() or e == "tostr" else 2)
        w = r.random()
        if w < (0.06 if hot(r) else 0.02):
            return r.choice(["5", "'x'", "undef", "true", "[]", "{}"])
        if w < (0.08 if hot(r) else 0.03):
            return r.choice(["math.abs", "collections.list", "math.max", "mt.get"])
        if w < (0.12 if hot(r) else 0.07) and e not in ("tostr", "__eq", "__len"):
            return "callable"
        if w < 0.15:
            np = r.randint(0, 4)
        ps = "abcd"[:np]
        ret = self.ret(e)
        if e == "tostr":
            ret = r.choice(["'T'", "'<' ~ %s ~ '>'" % (ps and "id(a)"), "'T' ~ n", "5", "undef"] if r.random() < 0.02 else ["'T'", "'t%d'" % r.randint(0, 9), "'T' ~ n"])
        if e == "__len" and r.random() < 0.7:
            ret = str(r.randint(0, 9))
        if e in ("__eq", "__lt", "__le", "__gt", "__ge") and r.random() < 0.7:
            ret = r.choice(["true", "false"])
        for c in "abcd":
            if c not in ps and ret == c:
                ret = "undef"
        log = "n += 1\necho '%s'%s\n" % (e, "".join(" ~ ' ' ~ id(%s)" % p for p in ps))
        if r.random() < (0.06 if hot(r) else 0.02):
            log += r.choice(["if n > 20 { return 1 // 0; }\n", "m0.%s = undef\n" % r.choice(ENT)])
        return "fn(%s) {\n%sreturn %s\n}" % (", ".join(ps), log, ret)

    def val(self):
        r = self.r
        w = r.random()
        if w < 0.72:
            return "x%d" % r.randint(0, self.n - 1)
        return r.choice(["1", "2.5", "'s'", "undef", "true", "[1]", "{.k: 1}", "'k'", "0"])

    def has(self, x, e):
        m = self.of.get(x)
        return m is not None and self.ents[m].get(e, False)

    def defined(self, s, x, e):
        """s, if the entry is there (or, rarely, anyway)."""
        return s if self.has(x, e) or self.r.random() < (0.3 if hot(self.r) else 0.015) else None

    def op(self):
        while True:
            s = self.op1()
            if s:
                return s

    def op1(self):
        r = self.r
        x = "x%d" % r.randint(0, self.n - 1)
        y = self.val()
        w = r.random()
        if w < 0.42:
            o = r.choice(list(BIN))
            a, b = (x, y) if r.random() < 0.75 else (y, x)
            if o in ("==", "!=") and a[0] != "x":
                return "echo id(%s %s %s)" % (a, o, b)
            return self.defined("echo id(%s %s %s)" % (a, o, b), a, BIN[o])
        if w < 0.5:
            o = r.choice(list(UN))
            return self.defined("echo id(%s%s)" % (o, x), x, UN[o])
        if w < 0.58:
            return self.defined("echo id(%s[%s])" % (x, r.choice(["'k'", "0", "1", y])), x, "__get") if r.random() < 0.7 else self.defined("echo id(%s.%s)" % (x, r.choice(["k", "q"])), x, "__get")
        if w < 0.65:
            return self.defined("%s[%s] = %s" % (x, r.choice(["'k'", "0", y]), self.val()) if r.random() < 0.7 else "%s.k = %s" % (x, y), x, "__set")
        if w < 0.72:
            return self.defined("echo id(%s(%s))" % (x, ", ".join(self.val() for _ in range(r.randint(0, 4)))), x, "__call")
        if w < 0.75:
            return self.defined("let p%d, let q%d = %s(%s)\necho id(p%d) ~ id(q%d)" % (self.uid(), self.u, x, self.val(), self.u, self.u), x, "__call")
        if w < 0.82:
            return self.defined(r.choice(["echo 's' ~ %s", "echo %s", "echo \"a#{%s}b\"", "echo %s->tostr()", "echo %s ~ 's'", "echo [1, %s]->join('-')", "echo len [%s]"]) % x, x, "tostr")
        if w < 0.87:
            k = r.choice(["foo", "foo", "bar", "__add", "copy"])
            return self.defined("echo id(%s->%s(%s))" % (x, k, ", ".join(self.val() for _ in range(r.randint(0, 2)))), x, k)
        if w < 0.92:
            m = "m%d" % r.randint(0, self.nm - 1)
            e = r.choice(ENT + ["foo"])
            if r.random() < 0.6:
                return self.put(m, e)
            self.ents[m].pop(e, None)
            return "%s.%s = undef" % (m, e)
        if w < 0.95:
            m = "m%d" % r.randint(0, self.nm - 1)
            self.of[x] = m
            return "mt.set(%s, %s)" % (x, m)
        if w < 0.98:
            return self.defined("echo [%s, %s] == [%s, %s]" % (x, y, self.val(), self.val()) if r.random() < 0.5 else "echo {.k: %s} == {.k: %s}" % (x, y), x, "__eq")
        return r.choice(["echo id(%s && 1)", "echo id(%s || 1)", "echo id(!%s)", "echo id(%s ?? 1)", "echo %s ? 1 : 2"]) % x

    def uid(self):
        self.u = getattr(self, "u", 0) + 1
        return self.u

    def program(self, k):
        r = self.r
        self.nm, self.n = r.randint(1, 3), r.randint(1, 4)
        p = self.out.append
        self.ents = {"m%d" % i: {} for i in range(self.nm)}
        self.of = {}
        p("let n = 0\nlet x0 = undef\n")
        p("mt.set(mt.get([]), mt.get({}))\nfn id(x) {\n match x {\n  int | float | bool | undef { return '' ~ x; }\n  str { return 'str:' ~ x; }\n }\n if mt.get(x) === mt.get({}) { return 'table'; }\n return 'obj ' ~ (mt.get(x).mark ?? 'plain')\n}\n")
        p("const callable = mt.set({}, {.mark: 'callable', .__call: fn(me, a, b, c) {\n echo 'callable ' ~ id(me) ~ ' ' ~ id(a) ~ ' ' ~ id(b) ~ ' ' ~ id(c)\n return 'called'\n}})\n")
        for i in range(self.nm):
            p("let m%d = {.mark: 'm%d'}\n" % (i, i))
        for i in range(self.n):
            base = r.choice(["{}", "{.k: %d}" % i, "[]", "[%d]" % i, "collections.set(%d)" % i])
            self.of["x%d" % i] = "m%d" % r.randint(0, self.nm - 1)
            p("%sx%d = mt.set(%s, %s)\n" % ("let " if i else "", i, base, self.of["x%d" % i]))
        full = r.random() < 0.5
        for i in range(self.nm):
            for e in ENT:
                if r.random() < (0.85 if full else 0.5):
                    p(self.put("m%d" % i, e) + "\n")
            if r.random() < 0.5:
                p("m%d.foo = %s\n" % (i, self.entry("__call")))
                self.ents["m%d" % i]["foo"] = True
        for _ in range(k):
            p(self.op() + "\n")
        return "".join(self.out).encode()


def ops(r):
    return Obj(r).program(r.randint(2, 14))


def vector(r):
    """Arithmetic objects: expressions over an overloaded type equal the same expressions computed field by field."""
    exprs = []

    def e(d):
        if d <= 0:
            return r.choice("abcd")
        w = r.random()
        if w < 0.7:
            o = r.choice(["+", "-", "*", "+", "-", "%", "//", "|", "&", "^", "<<"])
            return "(%s %s %s)" % (e(d - 1), o, e(d - 1 if r.random() < 0.5 else d - 2))
        return "(%s%s)" % (r.choice(["-", "+", "^"]), e(d - 1))
    out = ["let V = {}\nfn v(x) {\n return mt.set({.x: x}, V)\n}\n"]
    for o in ["+", "-", "*", "|", "&", "^", "<<"]:
        out.append("V.%s = fn(p, q) { return v(p.x %s %s); }\n" % (BIN[o], o, "q.x" if o != "<<" else "(q.x & 7)"))
    out.append("V.__idiv = fn(p, q) { return v(p.x // (q.x == 0 ? 1 : q.x)); }\nV.__mod = fn(p, q) { return v(p.x % (q.x == 0 ? 1 : q.x)); }\n"
               "V.__neg = fn(p) { return v(-p.x); }\nV.__pos = fn(p) { return v(+p.x); }\nV.__bnot = fn(p) { return v(^p.x); }\nV.tostr = fn(p) { return 'v' ~ p.x; }\n"
               "V.__lt = fn(p, q) { return p.x < q.x; }\nV.__eq = fn(p, q) { return p.x == q.x; }\nV.__len = fn(p) { return p.x; }\n")
    for n in "abcd":
        out.append("let %s = v(%d)\n" % (n, r.randint(-20, 20)))
    for _ in range(5):
        x, y = e(3), e(2)
        out.append("echo %s\necho %s < %s\necho %s == %s\necho len %s\n" % (x, x, y, x, y, y))
        n = r.choice("abcd")
        out.append("%s %s= %s\necho %s\n" % (n, r.choice("+-*|&^"), y, n))
    out.append("echo [a, b, c] == [a, b, c]\necho \"#{a}#{b}\"\necho [a, b, c, d]\n")
    return "".join(out).encode()


def inherit(r):
    """Classes made with __get: methods found through the metatable, overriding, and prototypes changed later."""
    out = ["let A = {.name: fn(s) { return 'A.name'; }, .hi: fn(s, x, y) { return [s.v, x, y]; }, .inc: fn(s) { s.v += 1; return s; }}\nA.__get = fn(s, k) {\n echo 'get ' ~ k\n return %s\n}\n" % r.choice(["undef", "'dyn ' ~ k", "A[k]", "k == 'z' ? fn(s) { return s.v; } : undef"])]
    out.append("let B = {.name: fn(s) { return 'B.name' ~ s.v; }, .hi: %s}\n" % r.choice(["A.hi", "undef", "fn(s) { return 'B.hi'; }"]))
    out.append("let a = mt.set({.v: 1}, A)\nlet b = mt.set({.v: 10}, B)\n")
    for _ in range(r.randint(8, 30) if hot(r) else r.randint(3, 12)):
        o = r.choice("ab")
        out.append(r.choice(["echo %s->name()\n" % o, "echo %s->hi(1)\n" % o, "echo %s->hi(1, 2, 3)\n" % o, "echo %s->inc()->hi(%s->inc().v, 2)\n" % (o, o), "echo %s.v\n" % o,
                             "mt.set(%s, %s)\n" % (o, r.choice("AB")), "%s.v = %d\n" % (o, r.randint(0, 9)), "%s.name = fn(s) { return 'new'; }\n" % r.choice(["A", "B", o]), "echo %s.missing\n" % o,
                             "B.inc = A.inc\n", "echo mt.get(%s) == %s\n" % (o, r.choice(["A.x", "undef"])), "mt.get(%s).late = fn(s) { return 'late' ~ s.v; }\n" % o, "echo %s->late()\n" % o,
                             "A.__get = undef\n", "echo %s['v']\n" % o, "echo %s->z()\n" % o, "mt.set(A, B)\n" if r.random() < 0.3 else ""]))
    return "".join(out).encode()


def derived(r):
    """Values made from values with metatables: slices, copies, sums, comprehensions, parts; each has its own operations."""
    out = ["let M = {.mark: 'M', .__add: fn(a, b) { return 'sum'; }, .__bor: fn(a, b) { return 'or'; }, .__len: fn(s) { return %d; }, .tostr: fn(s) { return 'T'; }, .__call: fn(s) { return 'call'; }}\n" % r.randint(0, 4),
           "M.push = fn(s, x) { return 'pushed'; }\n" if r.random() < 0.3 else "", "M.__get = mt.get([]).__get\n" if r.random() < 0.5 else "", "M.%s = mt.get(%s).%s\n" % (r.choice([("copy", "[]", "copy"), ("values", "{}", "values"), ("copy", "{}", "copy"), ("tolist", "collections.set()", "tolist"), ("copy", "collections.set()", "copy")])),
           "fn mark(x) {\n if mt.get(x) === mt.get({}) { return 'table'; }\n return mt.get(x).mark ?? 'plain'\n}\n" + "".join("mt.set(mt.get(%s), mt.get({}))\n" % v for v in ("[]", "''", "1", "undef", "collections.set()"))]
    n = r.randint(0, 4)
    base = r.choice(["list", "list", "list", "table", "set", "str"])
    b = {"list": "[%s]" % ", ".join(map(str, range(n))), "table": "{%s}" % ", ".join("%d: %d" % (i, i) for i in range(n)), "set": "collections.set(%s)" % ", ".join(map(str, range(n))), "str": "'%s'" % "abcd"[:n]}[base]
    raw = {"list": "mt.get([])", "table": "mt.get({})", "set": "mt.get(collections.set())", "str": "mt.get('')"}[base]
    for e in ("__len", "__add", "tostr", "__get", "__bor"):
        if r.random() < 0.3:
            out.append("M.%s = %s.%s\n" % (e, raw, e) if r.random() < 0.7 else "M.%s = undef\n" % e)
    out.append("let x = %s\n" % ("mt.set(%s, M)" % b if base != "str" else b))
    if base == "str":
        out.append("mt.get('').mark = 'str'\n")
    ds = []
    for i in range(r.randint(1, 4)):
        lo, hi = sorted([r.randint(0, n), r.randint(0, n)])
        sl = r.choice(["x[%d:%d]" % (lo, hi), "x[0:%d]" % n, "x[:]" if False else "x[%d:]" % lo, "x[:%d]" % hi])
        e = {"list": r.choice([sl, sl, sl, "%s.copy(x)" % raw, "%s.__add(x, [9])" % raw, "[y for y <- x]", "[x]", "x + [1]", "collections.list(x)"]),
             "table": r.choice(["%s.copy(x)" % raw, "%s.__bor(x, {9: 9})" % raw, "{y: 1 for y <- x}", "%s.keys(x)" % raw, "[x]", "x | {}"]),
             "set": r.choice(["%s.copy(x)" % raw, "%s.__bor(x, collections.set(9))" % raw, "%s.tolist(x)" % raw, "[x]"]),
             "str": r.choice([sl, "x ~ 'z'", "x->toupper()", "x->split()", "[y for y <- x]"])}[base]
        out.append("let d%d = %s\necho mark(d%d)\n" % (i, e, i))
        ds.append("d%d" % i)
    for d in ds + ["x"]:
        for o in r.sample(["echo {0}", "echo len {0}", "echo {0} + [3]", "echo {0} | {{}}", "echo {0}->copy()", "echo {0}->push(5)", "echo {0}()", "echo '' ~ {0}", "echo mt.get({0}) == M", "echo {0}->tolist()", "echo {0}[0]"], 2):
            out.append(o.format(d) + "\n")
    return "".join(out).encode()


def builtin(r):
    """The metatables of the built-in types: new methods, and changed ones."""
    tys = {"int": "5", "str": "'abc'", "float": "1.5", "bool": "true", "list": "[1, 2]", "table": "{.k: 1}", "undef": "undef"}
    t = r.choice(list(tys))
    v = tys[t]
    out = ["const M = mt.get(%s)\n%sM.twice = fn(x) { return [x, x]; }\necho %s->twice()\n" % (v, r.choice(["mt.set(M, mt.get({}))\n"] * 4 + [""]), v)]
    if t in ("int", "str", "float", "bool", "undef"):
        out.append("echo 'before'\n")
        o = r.choice(["+", "*", "<<", "<", "=="])
        out.append("M.%s = fn(a, b) {\n return 'mine'\n}\nlet a = %s\nlet b = %s\necho a %s b\n" % (BIN[o], v, v, o))
        out.append("M.%s = undef\necho a == b\n" % BIN[o])
    out.append("let c = %s\nM.__call = fn(x, y) { return 'called with ' ~ y; }\necho c(3)\necho c()\n" % v)
    if r.random() < 0.5:
        out.append("M.__neg = fn(x) { return 'neg'; }\necho -c\n")
    if r.random() < 0.5 and t not in ("list", "table", "str"):
        out.append("M.__get = fn(x, k) { return k ~ k; }\necho c['z']\necho c.foo\nM.__set = fn(x, k, v) { echo k ~ v; return x; }\nc[1] = 2\n")
    out.append("let y = %s\necho y->twice()\necho y->gone()\n" % v)
    return "".join(out).encode()


def changed(r):
    """Conversions, methods and operators of the built-in types replaced by the program: what else uses them?"""
    vals = {"int": ["5", "-1", "0"], "str": ["'abc'", "''", "'k'"], "float": ["1.5", "-0.25"], "bool": ["true", "false"], "undef": ["undef"], "list": ["[1, 2]", "[]", "[[3]]", "['k', 1.5]"], "table": ["{.k: 1}", "{}", "{.k: {.k: 2}}"], "set": ["collections.set(1, 'k')"]}
    meths = {"str": ["toupper", "len", "split", "tostr", "rep", "__get", "startswith"], "list": ["push", "pop", "copy", "join", "tostr", "__get", "__add", "__eq", "__len", "reverse"], "table": ["copy", "keys", "tostr", "__get", "__bor", "__eq", "__len", "remove"],
             "set": ["tolist", "copy", "tostr", "__bor", "__eq", "__len"], "int": ["tostr", "tofloat", "tochar"], "float": ["tostr", "toint"], "bool": ["tostr", "tobool"], "undef": ["tostr"]}
    ts = r.sample(list(vals), r.randint(1, 3))
    out = ["let n = 0\n"]
    out += ["const M%s = mt.get(%s)\nmt.set(M%s, mt.get({}))\n" % (t, vals[t][0], t) for t in ts]
    for t in ts:
        for m in r.sample(meths[t] + ["tostr"], r.randint(1, 2)) + r.sample(["__call", "__neg", "__add", "__lt", "__eq", "foo", "__len"], r.choice([0, 1, 2])):
            ret = {"tostr": ["'<%s>'" % t, "'%s' ~ n" % t, "''", "5"], "__eq": ["true", "false"], "__lt": ["true", "n > 3"], "__len": ["7", "n"], "keys": ["['k']"], "__get": ["'got'", "b"]}.get(m, ["'%s of %s'" % (m, t), "[n]", "b"])
            out.append("M%s.%s = fn(a, b) {\n n += 1\n if n > 40 { return 'many'; }\n return %s\n}\n" % (t, m, r.choice(ret)))
    have = [v for t in vals for v in vals[t] if t in ts or r.random() < 0.3]
    for _ in range(r.randint(4, 14)):
        t = r.choice(ts)
        v, w = r.choice(vals[t]), r.choice(have)
        out.append(r.choice(["echo {0}", "echo '' ~ {0}", "echo [{0}, {1}]", "echo {{'z': {0}}}", "echo [{0}]->join('-')", "echo \"a#{{{0}}}b\"", "let x = {0}\necho x == {1}", "let x = {0}\necho x->%s({1})" % r.choice(meths[t]), "let x = {0}\necho len x", "echo [[{0}]] == [[{1}]]",
                             "echo {{'q': {0}}} == {{'q': {1}}}", "echo [{0}, {1}]->search({1})", "for y <- {0} {{ echo y; }}", "echo [y ~ '!' for y <- [{0}, {1}]]", "let x = {0}\necho x.k", "let x = {0}\necho x[0]", "echo n", "match {0} {{\n{1} {{\necho 'same'\n}}\n* {{\necho 'other'\n}}\n}}",
                             "let x = {0}\necho x + {1}", "let x = {0}\necho x < {1}", "let x = {0}\necho -x", "let x = {0}\necho x(1)", "let x = {0}\necho x ~ {1}", "let x = {0}\necho x | {1}", "echo {0}->tostr()", "let x = [{0}]\nx->push({1})\necho x", "if {0} {{ echo 'yes'; }}", "echo !{0}",
                             "echo M%s.tostr({0})" % t, "echo {0}->foo(1)", "M%s.tostr = undef" % t, "echo [3, 1, 2]->sort()", "echo collections.set({0}, {0})", "echo {{{0}: 1}}"]).format(v, w) + "\n")
    # local names are declared once
    k = 0
    for i, x in enumerate(out):
        if x.startswith("let x = "):
            k += 1
            h, t = x.split("\n", 1)
            out[i] = "let x%d%s\n%s" % (k, h[5:], re.sub(r"\bx\b", "x%d" % k, t))
    return "".join(out).encode()


dcheck.main("C12", "distinct programs over values with metatables whose trace (entry, operands, result) equals the reference model's",
            {"operations": (5000, 150000, ops), "arithmetic types": (500, 15000, vector), "objects": (1500, 40000, inherit), "derived values": (800, 30000, derived), "sessions of derived values": (500, 20000, sessions.tolerant(derived)), "built-in types": (500, 5000, builtin), "changed built-in types": (800, 30000, changed), "sessions of changed built-in types": (400, 15000, sessions.tolerant(changed)),
             "sessions of operations": (1000, 40000, sessions.tolerant(ops)), "sessions of objects": (700, 25000, sessions.tolerant(inherit)), "sessions of built-in types": (300, 4000, sessions.tolerant(builtin))})
