"""Typed random programs.  Text uses \\x01 (a break is allowed here), \\x02 (end of statement); lay() renders it."""

PREC = {"?:": 0, "??": 1, "||": 2, "&&": 3, "==": 4, "!=": 4, "===": 4, "!==": 4, "<": 5, "<=": 5, ">": 5, ">=": 5,
        "~": 6, "|": 7, "^": 8, "&": 9, "&^": 9, "<<": 10, ">>": 10, "+": 11, "-": 11, "*": 12, "/": 12, "//": 12,
        "%": 12, "u": 13, "**": 14, "call": 15, "atom": 16}
RIGHT = {"??", "||", "&&", "~"}

DEFAULT = dict(let=10, assign=8, aug=5, multi=3, echo=12, if_=7, while_=3, forc=3, forin=4, match=4, fn=4, call=5,
               mut=5, jump=4, ret=3, closure=3, assert_=1, comp=2, block=0, setmt=1, swap=1, letfnuse=2)
INTS = ["0", "1", "2", "3", "5", "7", "10", "255", "1000000", "9223372036854775807", "4611686018427387904", "63", "64"]


class Info:
    __slots__ = ("t", "const", "sig")

    def __init__(self, t, const=False, sig=None):
        self.t, self.const, self.sig = t, const, sig


class Gen:
    ALL = frozenset(("methods", "float", "table", "set", "comp", "call", "iife", "interp", "slice", "list"))

    def __init__(self, r, weights=None, budget=40, perr=0.0, depth=3, feats=ALL):
        self.r = r
        self.f = feats
        self.w = dict(DEFAULT, **(weights or {}))
        self.kinds = [k for k in self.w if self.w[k] > 0]
        self.kw = [self.w[k] for k in self.kinds]
        self.budget = budget
        self.perr = perr
        self.maxd = depth
        self.scopes = [{}]
        self.fnbase = [0]          # index of the first scope of each enclosing function
        self.infn = 0
        self.ret = []
        self.loops = [0]
        self.uid = 0
        self.nest = 0

    # ---- names
    def visible(self):
        out = {}
        for s in self.scopes:
            out.update(s)
        return out

    def vars(self, t, mutable=False):
        return [n for n, i in self.visible().items() if (i.t == t or t is None) and not (mutable and i.const)]

    def fresh(self):
        r = self.r
        if r.random() < 0.25:
            vis = [n for n in self.visible() if n not in self.scopes[-1]]
            if vis:
                return r.choice(vis)
        self.uid += 1
        return "%s%d" % (r.choice("abcdxyzpq"), self.uid)

    def declare(self, n, t, const=False, sig=None):
        self.scopes[-1][n] = Info(t, const, sig)

    # ---- expressions: (text, prec)
    def paren(self, e, p):
        t, q = e
        if q < p or self.r.random() < 0.04:
            return "(\x01" + t + "\x01)" if False else "(\x01" + t + ")"
        return t

    def bin(self, op, a, b):
        p = PREC[op]
        if op == "**":
            return self.paren(a, 15) + " ** \x01" + self.paren(b, 13), p
        if op in RIGHT:
            return self.paren(a, p + 1) + " " + op + " \x01" + self.paren(b, p), p
        return self.paren(a, p) + " " + op + " \x01" + self.paren(b, p + 1), p

    def un(self, op, a):
        t = self.paren(a, 13)
        if op == "len":
            return "len " + t, 13
        if t[:1] == op:
            t = "(" + t + ")"
        return op + t, 13

    def post(self, a):
        return self.paren(a, 15)

    def x(self, t, d=None):
        """Expression text of any precedence."""
        return self.e(t, self.maxd if d is None else d)[0]

    def arg(self, t, d):
        return self.e(t, d)[0]

    def e(self, t, d):
        r = self.r
        if self.perr and r.random() < self.perr:
            return self.wrong(t, d)
        if t == "any":
            t = r.choice(["int", "int", "float", "bool", "str", "list", "undef", "table"])
        t = self.narrow(t)
        if r.random() < (0.35 if d > 0 else 0.6):
            vs = self.vars(t)
            if vs:
                return r.choice(vs), 16
        if d <= 0:
            return self.leaf(t)
        w = r.random()
        if w < 0.06:
            return (self.paren(self.e("bool", d - 1), 1) + " ? \x01" + self.e(t, d - 1)[0] + " : \x01" + self.e(t, d - 1)[0]), 0
        if w < 0.10:
            return self.bin("??", self.e(r.choice([t, "undef"]), d - 1), self.e(t, d - 1))
        if w < 0.18:
            c = self.callexpr(t, d) if "call" in self.f else None
            if c:
                return c
        if w < 0.21 and t in ("int", "str") and "list" in self.f:
            return "[" + self.e(t, d - 1)[0] + ", \x01" + self.e(t, d - 1)[0] + "][" + r.choice(["0", "1", "-1", "-2"]) + "]", 15
        if w < 0.24 and "table" in self.f:
            return "{.k: " + self.e(t, d - 1)[0] + "}" + r.choice([".k", "['k']", "[.k]"]), 15
        if w < 0.26 and self.nest < 2 and "iife" in self.f:
            return self.iife(t, d)
        return getattr(self, "x_" + t)(d)

    def narrow(self, t):
        f = self.f
        if t == "float" and "float" not in f or t == "table" and "table" not in f or t == "set" and "set" not in f:
            return "int"
        if t in ("list", "ilist") and "list" not in f:
            return "str"
        return t

    def wrong(self, t, d):
        r = self.r
        o = r.choice([x for x in ("undef", "bool", "str", "list", "int", "table") if x != t])
        w = r.random()
        if w < 0.2:
            return "[1, 2][" + r.choice(["2", "-3", "'a'", "undef"]) + "]", 15
        if w < 0.3:
            return "(1 // 0)", 16
        if w < 0.4:
            return "5->nomethod()", 15
        if w < 0.45:
            return "'abc'[7]", 15
        return self.leaf(o)

    def leaf(self, t):
        r = self.r
        if t == "int":
            return (r.choice(INTS) if r.random() < 0.5 else str(r.randrange(20))), 16
        if t == "float":
            return r.choice(["0.5", "1.0", "2.25", "0.0", "100.125", "3.0", "1.5e3"]), 16
        if t == "bool":
            return r.choice(["true", "false"]), 16
        if t == "str":
            return r.choice(["'a'", "'bc'", "''", "'x y'", "\"q\"", "'0'", "`r`", "'A1'", ".key", "'\\n'"]), 16
        if t == "undef":
            return "undef", 16
        if t == "list":
            return r.choice(["[]", "[1, 2]", "[3]", "['a', 1]", "[[1], 2]", "[0, 1, 2, 3]"]), 16
        if t == "ilist":
            return r.choice(["[]", "[1, 2]", "[3]", "[5, 4, 6]", "[0, 1, 2, 3]"]), 16
        if t == "table":
            return r.choice(["{}", "{1: 2}", "{.a: 1}"]), 16
        if t == "set":
            return r.choice(["collections.set()", "collections.set(1)", "collections.set('a')"]), 15
        raise AssertionError(t)

    def x_undef(self, d):
        return "undef", 16

    def x_int(self, d):
        r, e = self.r, self.e
        w = r.random()
        if w < 0.5:
            op = r.choice(["+", "-", "*", "+", "-", "&", "|", "^", "&^", "<<", ">>", "//", "%", "**"])
            b = e("int", d - 1)
            if op in ("//", "%"):
                b = (r.choice(["2", "3", "7", "-2"]), 13) if r.random() < 0.95 else b
            if op == "**":
                b = r.choice(["0", "1", "2", "3"]), 16
            return self.bin(op, e("int", d - 1), b)
        if w < 0.62:
            return self.un(r.choice(["-", "^", "+"]), e("int", d - 1))
        if w < 0.74:
            t = self.narrow(r.choice(["str", "list", "ilist", "table", "set"]))
            return self.un("len", e("str" if t == "int" else t, d - 1))
        if "methods" not in self.f:
            return self.leaf("int")
        if w < 0.8:
            return self.post(e(r.choice(["int", "float"]), d - 1)) + "->toint()", 15
        if w < 0.84:
            return self.post(e("ilist", d - 1)) + "->count(" + self.arg("int", d - 1) + ")", 15
        if w < 0.9:
            return self.bin(r.choice(["&&", "||"]), e("int", d - 1), e("int", d - 1))
        return self.leaf("int")

    def x_float(self, d):
        r, e = self.r, self.e
        w = r.random()
        if w < 0.6:
            op = r.choice("+-*/")
            return self.bin(op, e("float", d - 1), e(r.choice(["float", "int"]), d - 1))
        if w < 0.7:
            return self.un(r.choice("-+"), e("float", d - 1))
        if w < 0.8:
            return self.bin("/", e("int", d - 1), e("int", d - 1))
        if "methods" not in self.f:
            return self.leaf("float")
        if w < 0.9:
            return self.post(e("int", d - 1)) + "->tofloat()", 15
        return "math." + r.choice(["floor", "ceil"]) + "(" + self.arg(r.choice(["int", "float"]), d - 1) + ")", 15

    def x_bool(self, d):
        r, e = self.r, self.e
        w = r.random()
        if w < 0.3:
            t = r.choice(["int", "float"])
            return self.bin(r.choice(["<", "<=", ">", ">="]), e("int", d - 1), e(t, d - 1))
        if w < 0.38:
            return self.bin(r.choice(["<", "<=", ">", ">="]), e("str", d - 1), e("str", d - 1))
        if w < 0.55:
            t = r.choice(["int", "float", "str", "bool", "list", "ilist", "undef", "table"])
            return self.bin(r.choice(["==", "!="]), e(t, d - 1), e(t if r.random() < 0.8 else "any", d - 1))
        if w < 0.6:
            return self.bin(r.choice(["===", "!=="]), e("int", d - 1), e(r.choice(["int", "bool"]), d - 1))
        if w < 0.75:
            return self.bin(r.choice(["&&", "||"]), e("bool", d - 1), e("bool", d - 1))
        if w < 0.85:
            return self.un("!", e("any", d - 1))
        return self.post(e("any", d - 1)) + "->tobool()" if False else self.leaf("bool")[0], 16

    def x_str(self, d):
        r, e = self.r, self.e
        w = r.random()
        if w < 0.3:
            return self.bin("~", e("str", d - 1), e(r.choice(["str", "int", "bool", "undef", "list"]), d - 1))
        if w < 0.42 and "interp" in self.f:
            return '"' + r.choice(["", "v=", "\\t"]) + "#{" + self.e(r.choice(["int", "str", "list"]), d - 1)[0].replace("\x01", "") + "}" + r.choice(["", ";", "\\\\"]) + '"', 16
        if "methods" not in self.f:
            return self.leaf("str")
        if w < 0.6:
            return self.post(e("str", d - 1)) + "->" + r.choice(["toupper()", "tolower()", "trim()", "rep(2)", "rep(0)", "replace('a', 'b')", "rtrim('x')"]), 15
        if w < 0.7:
            return self.post(e("str", d - 1)) + "[" + r.choice(["1:", ":1", ":-1", "0:2", "-2:", ":"[1:] or "0:"]) + "]", 15
        if w < 0.85:
            return self.post(e(r.choice(["int", "bool", "float", "undef", "list"]), d - 1)) + "->tostr()", 15
        if w < 0.9:
            return self.post(e(r.choice(["list", "ilist"]), d - 1)) + "->join(" + self.leaf("str")[0] + ")", 15
        return self.leaf("str")

    def x_list(self, d):
        r, e = self.r, self.e
        w = r.random()
        if w < 0.5:
            return "[\x01" + ", \x01".join(e("any", d - 1)[0] for _ in range(r.randint(0, 3))) + "]", 16
        if w < 0.6 or "methods" not in self.f:
            return self.bin("+", e("list", d - 1), e(r.choice(["list", "ilist"]), d - 1))
        if w < 0.7:
            return self.post(e("str", d - 1)) + "->split('a')", 15
        if w < 0.8:
            return self.post(e("list", d - 1)) + "->copy()", 15
        if w < 0.9 and "comp" in self.f:
            return self.comp(d)
        return self.e("ilist", d - 1)

    def x_ilist(self, d):
        r, e = self.r, self.e
        w = r.random()
        if w < 0.4:
            return "[\x01" + ", \x01".join(e("int", d - 1)[0] for _ in range(r.randint(0, 4))) + "]", 16
        if w < 0.55:
            return self.bin("+", e("ilist", d - 1), e("ilist", d - 1))
        if "methods" not in self.f:
            return self.leaf("ilist")
        if w < 0.7:
            return self.post(e("ilist", d - 1)) + "[" + r.choice(["1:", ":1", ":-1", "0:2", "-2:"]) + "]", 15
        if w < 0.8:
            return self.post(e("ilist", d - 1)) + "->push(" + self.arg("int", d - 1) + ")", 15
        if w < 0.95 and "comp" in self.f:
            return self.comp(d, "int")
        return self.leaf("ilist")

    def comp(self, d, t=None):
        r = self.r
        n = self.fresh()
        coll = self.e("ilist", d - 1)[0]
        self.scopes.append({n: Info("int")})
        el = self.e(t or r.choice(["int", "str", "list"]), min(d - 1, 1))[0]
        g = " if " + self.e("bool", min(d - 1, 1))[0] if r.random() < 0.5 else ""
        self.scopes.pop()
        return "[\x01" + el + " for " + n + " <- \x01" + coll + g + "]", 16

    def x_table(self, d):
        r, e = self.r, self.e
        w = r.random()
        if w < 0.7:
            ks = [".a", ".b", "1", "2", "true", "1.5", "'s'"]
            n = r.randint(0, 2)
            return "{" + ", \x01".join(r.choice(ks) + ": \x01" + e("any", d - 1)[0] for _ in range(n)) + "}", 16
        if w < 0.8:
            return self.bin("|", e("table", d - 1), e("table", d - 1))
        if w < 0.9:
            return self.post(e("table", d - 1)) + "->copy()", 15
        n = self.fresh()
        coll = self.e("ilist", d - 1)[0]
        self.scopes.append({n: Info("int")})
        k = self.e("int", 0)[0]
        v = self.e("int", 1)[0]
        self.scopes.pop()
        return "{" + k + ": " + v + " for " + n + " <- \x01" + coll + "}", 16

    def x_set(self, d):
        r, e = self.r, self.e
        if r.random() < 0.6:
            return "collections.set(\x01" + ", \x01".join(e(r.choice(["int", "str"]), d - 1)[0] for _ in range(r.randint(0, 2))) + ")", 15
        return self.bin(r.choice(["|", "&", "^", "&^"]), e("set", d - 1), e("set", d - 1))

    # ---- functions
    def callexpr(self, t, d, multi=False):
        r = self.r
        fs = [(n, i) for n, i in self.visible().items() if i.t == "fn" and (t is None or i.sig[1] and i.sig[1][0] == t)]
        if not fs:
            return None
        n, i = r.choice(fs)
        return n + self.callargs(i.sig[0], d), 15

    def callargs(self, ps, d):
        r = self.r
        k = len(ps)
        w = r.random()
        types = list(ps)
        if w < 0.08:
            types = types + ["any"]
        args = [self.e(p, d - 1)[0] for p in types]
        if w > 0.95 and args:
            args.pop()      # a missing argument is undef
        return "(\x01" + ", \x01".join(args) + ")"

    def iife(self, t, d):
        r = self.r
        ps = [r.choice(["int", "str"]) for _ in range(r.randint(0, 2))]
        f = self.fnlit(ps, [t], small=True)
        return "(" + f + ")" + self.callargs(ps, d), 15

    def fnlit(self, ps, rets, small=False, name=None):
        """'fn(params) { body }' (name: declared inside for the statement form)."""
        r = self.r
        names = []
        for p in ps:
            n = self.fresh()
            while n in names:
                self.uid += 1
                n = "p%d" % self.uid
            names.append(n)
        self.scopes.append({n: Info(p, False) for n, p in zip(names, ps)})
        consts = set()
        for n in names:
            if r.random() < 0.1:
                self.scopes[-1][n].const = True
                consts.add(n)
        self.fnbase.append(len(self.scopes) - 1)
        self.infn += 1
        self.nest += 1
        self.ret.append(rets)
        self.loops.append(0)
        body = self.stmts(r.randint(0, 1) if small else r.randint(0, 4))
        if rets is not None:
            body += "return " + ", \x01".join(self.x(t, 2) for t in rets) + "\x02"
        self.loops.pop()
        self.ret.pop()
        self.nest -= 1
        self.infn -= 1
        self.fnbase.pop()
        self.scopes.pop()
        return "fn(" + ", ".join(("const " if n in consts else "") + n for n in names) + ") {\x01" + body + "}"

    # ---- statements
    def stmts(self, n):
        out = []
        for _ in range(n):
            if self.budget <= 0:
                break
            s = self.stmt()
            if s:
                out.append(s + "\x02")
        return "".join(out)

    def block(self, n=None, names=None):
        self.scopes.append(dict(names or {}))
        self.nest += 1
        s = self.stmts(self.r.randint(0, 3) if n is None else n)
        self.nest -= 1
        self.scopes.pop()
        return "{\x01" + s + "}"

    def stmt(self):
        self.budget -= 1
        for _ in range(20):
            k = self.r.choices(self.kinds, self.kw)[0]
            if self.nest >= 4 and k in ("if_", "while_", "forc", "forin", "match", "fn", "closure"):
                continue
            s = getattr(self, "s_" + k)()
            if s:
                return s
        return self.s_echo()

    def newtype(self):
        return self.narrow(self.r.choice(["int", "int", "int", "str", "bool", "float", "list", "ilist", "ilist", "table", "set", "undef"]))

    def s_let(self):
        r = self.r
        n = self.fresh()
        if n in self.scopes[-1]:
            return None
        t = self.newtype()
        c = r.random() < 0.15
        if r.random() < 0.1 and not c and False:
            pass
        s = ("const " if c else "let ") + n + " = \x01" + self.x(t)
        self.declare(n, t, c)
        return s

    def s_assign(self):
        vs = [n for n in self.vars(None, True) if self.visible()[n].t != "fn"]
        if not vs:
            return None
        n = self.r.choice(vs)
        t = self.visible()[n].t
        if t == "any":
            return None
        return n + " = \x01" + self.x(t)

    def s_aug(self):
        r = self.r
        vs = self.vars("int", True) or self.vars("str", True)
        if not vs:
            return None
        n = r.choice(vs)
        if self.visible()[n].t == "int":
            op = r.choice(["+=", "-=", "*=", "|=", "&=", "^=", "<<=", "&^=", "&&=", "||=", "??=", "//=", "%=", ">>="])
            return n + " " + op + " " + ("3" if op in ("//=", "%=") else self.x("int", 2))
        return n + " ~= " + self.x("str", 2)

    def s_multi(self):
        r = self.r
        k = r.randint(2, 4)
        parts, decl, types = [], [], []
        for i in range(k):
            w = r.random()
            vs = [n for n in self.vars("int", True)]
            ls = self.vars("ilist")
            if w < 0.4:
                n = self.fresh()
                if n in self.scopes[-1] or n in [x for x, _ in decl]:
                    self.uid += 1
                    n = "m%d" % self.uid
                c = r.random() < 0.2
                # a name used later in the same statement as a target would be this one: keep them distinct
                if any(n == p for p in parts):
                    self.uid += 1
                    n = "m%d" % self.uid
                parts.append(("const " if c else "let ") + n)
                decl.append((n, c))
                types.append("int")
            elif w < 0.7 and vs:
                n = r.choice(vs)
                if n in [x for x, _ in decl]:
                    return None
                parts.append(n)
                types.append("int")
            elif w < 0.85 and ls:
                n = r.choice(ls)
                if n in [x for x, _ in decl]:
                    return None
                parts.append("{.k: " + n + "}.k[len " + n + " - len " + n + ":]" if False else "{}[%s]" % self.x("int", 1) if r.random() < 0.3 else "[0][0]")
                types.append("int")
            else:
                vs2 = self.vars("table")
                if not vs2:
                    return None
                n = r.choice(vs2)
                if n in [x for x, _ in decl]:
                    return None
                parts.append(n + r.choice([".f", "['g']", "[3]"]))
                types.append("int")
        if parts[0][:1] in "[{(":
            parts.insert(0, "let t%d" % (self.uid + 1))
            self.uid += 1
            decl.insert(0, ("t%d" % self.uid, False))
            types.insert(0, "int")
        # values are evaluated before anything is declared
        w = r.random()
        mf = [n for n, i in self.visible().items() if i.t == "fn" and i.sig[1] and len(i.sig[1]) > 1 and all(t == "int" for t in i.sig[1])]
        if w < 0.4 and mf:
            n = r.choice(mf)
            sig = self.visible()[n].sig
            lead = max(0, len(types) - len(sig[1]))
            vals = [self.x("int", 2) for _ in range(lead)] + [n + self.callargs(sig[0], 2)]
        else:
            vals = [self.x("int", 2) for _ in types]
        s = ", ".join(parts) + " = \x01" + ", \x01".join(vals)
        for n, c in decl:
            self.declare(n, "int", c)
        return s

    def s_swap(self):
        vs = self.vars("int", True)
        if len(vs) < 2:
            return None
        a, b = self.r.sample(vs, 2)
        return "%s, %s = %s, %s" % (a, b, b, a)

    def s_echo(self):
        r = self.r
        t = r.choice(["int", "int", "str", "bool", "list", "float", "ilist", "table", "undef"])
        return "echo " + self.x(t)

    def s_assert_(self):
        return "assert " + (self.x("bool", 2) if self.perr else self.r.choice(["true", "1", "[]", "'a'"]))

    def s_if_(self):
        r = self.r
        s = "if " + self.x("bool", 2) + " " + self.block()
        while r.random() < 0.3:
            s += " elseif " + self.x("bool", 2) + " " + self.block()
        if r.random() < 0.4:
            s += " else " + self.block()
        return s

    def loopbody(self, names=None, pre=""):
        self.loops[-1] += 1
        self.scopes.append(dict(names or {}))
        self.nest += 1
        s = self.stmts(self.r.randint(1, 4))
        self.nest -= 1
        self.scopes.pop()
        self.loops[-1] -= 1
        return "{\x01" + pre + s + "}"

    def s_while_(self):
        r = self.r
        self.uid += 1
        n = "w%d" % self.uid
        k = r.randint(0, 4)
        self.scopes[-1][n] = Info("int", True)
        s = "let " + n + " = %d\x02" % k
        c = n + " > 0" if r.random() < 0.6 else self.paren(self.e("bool", 1), 3) + " && " + n + " > 0" if r.random() < 0.5 else n + " > 0 && " + self.paren(self.e("bool", 1), 3)
        return s + "while " + c + " " + self.loopbody(pre=n + " -= 1\x02")

    def s_forc(self):
        r = self.r
        n = self.fresh()
        k = r.randint(0, 4)
        if r.random() < 0.5:
            h = "for let %s = 0; %s < %d; %s += 1 " % (n, n, k, n)
        else:
            h = "for let %s = %d; %s > 0; %s -= 1 " % (n, k, n, n)
        self.scopes.append({})
        b = self.loopbody({n: Info("int", True)})
        self.scopes.pop()
        return h + b

    def s_forin(self):
        r = self.r
        n = self.fresh()
        w = r.random()
        if w < 0.6:
            c, t = self.x("ilist", 2), "int" if "list" in self.f else "str"
        elif w < 0.8:
            c, t = self.x("str", 2), "str"
        else:
            c, t = r.choice(["[1, 2, 3, 4]", "'abc'", "{.one: 1}"]), None
            t = "int" if c[0] == "[" else "str"
        return "for " + n + " <- " + c + " " + self.loopbody({n: Info(t, r.random() < 0.5)})

    def s_jump(self):
        if not self.loops[-1]:
            return None
        w = self.r.choice(["break", "continue"])
        if self.r.random() < 0.2:
            return w
        pre = self.s_let() + "\x02" if self.r.random() < 0.0 else ""
        self.scopes.append({})
        pre = "".join((self.s_let() or "echo 0") + "\x02" for _ in range(self.r.choice([0, 0, 1, 2])))
        self.scopes.pop()
        return "if " + self.x("bool", 2) + " {\x01" + pre + w + "\x02}"

    def s_ret(self):
        if not self.infn:
            return None
        rets = self.ret[-1]
        s = "return " + ", ".join(self.x(t, 2) for t in rets) if rets else "return undef"
        return "if " + self.x("bool", 2) + " {\x01" + s + "\x02}"

    def pattern(self, binds, d=2, t=None):
        r = self.r
        w = r.random()
        if d <= 0:
            w *= 0.55
        if w < 0.12:
            return "*"
        if w < 0.3 and binds is not None:
            self.uid += 1
            n = "m%d" % self.uid
            binds[n] = (t or "any", r.random() < 0.2)
            return ("const " if binds[n][1] else "let ") + n
        if w < 0.42:
            return r.choice(["0", "1", "2", "-1", "true", "false", "undef", "'a'", "1.5", ".key", "'bc'", "''"])
        if w < 0.55:
            return r.choice(["int", "str", "bool", "float", "list", "table"])
        if w < 0.72:
            k = r.randint(0, 3)
            ps = [self.pattern(binds, d - 1) for _ in range(k)]
            if r.random() < 0.3:
                ps.append("...")
            return "[" + ", ".join(ps) + "]"
        if w < 0.85:
            ks = r.sample([".a", ".b", "1", "2", "'s'", "true"], r.randint(0, 2))
            ps = [k + ": " + self.pattern(binds, d - 1) for k in ks]
            if r.random() < 0.4:
                ps.append("...")
            return "{" + ", ".join(ps) + "}"
        return self.pattern(None, d - 1) + " | " + self.pattern(None, d - 1)

    def s_match(self):
        r = self.r
        t = r.choice(["int", "any", "any", "list", "ilist", "table", "str"])
        s = "match " + self.x(t, 2) + " {\x01"
        for _ in range(r.randint(1, 4)):
            b = {}
            p = self.pattern(b)
            names = {n: Info(ty, c) for n, (ty, c) in b.items()}
            self.scopes.append(names)
            g = " if " + self.x("bool", 1) if r.random() < 0.3 else ""
            pre = "".join("echo " + n + "\x02" for n in names if r.random() < 0.7)
            body = self.stmts(r.randint(0, 2))
            self.scopes.pop()
            s += p + g + " {\x01" + pre + body + "}\x02"
        return s + "}"

    def sig(self):
        r = self.r
        ps = [self.narrow(r.choice(["int", "int", "str", "ilist", "bool"])) for _ in range(r.randint(0, 3))]
        w = r.random()
        if w < 0.15:
            rets = None
        elif w < 0.35:
            rets = ["int"] * r.randint(2, 3)
        else:
            rets = [self.narrow(r.choice(["int", "str", "bool", "ilist", "list"]))]
        return ps, rets

    def s_fn(self):
        r = self.r
        if self.infn > 2:
            return None
        n = self.fresh()
        if n in self.scopes[-1]:
            return None
        ps, rets = self.sig()
        # the function's own name hides an outer one inside the body; it is not called there
        self.scopes[-1][n] = Info("self", True)
        f = self.fnlit(ps, rets)
        const = r.random() < 0.3
        form = r.random()
        self.scopes[-1][n] = Info("fn", True, (ps, rets))
        if form < 0.7:
            return ("const " if const else "") + "fn " + n + f[2:]
        return ("const " if const else "let ") + n + " = \x01" + f

    def s_call(self):
        c = self.callexpr(None, 2)
        return c[0] if c else None

    def s_letfnuse(self):
        """Results of a call in the middle and at the end of a list of expressions."""
        fs = [n for n, i in self.visible().items() if i.t == "fn" and i.sig[1]]
        if not fs:
            return None
        r = self.r
        n = r.choice(fs)
        sig = self.visible()[n].sig
        c = n + self.callargs(sig[0], 1)
        w = r.random()
        if w < 0.4:
            return "echo [" + c + ", " + self.x("int", 1) + "]"
        if w < 0.8:
            return "echo collections.list(" + r.choice(["", c + ", "]) + c + ")"
        return "echo [" + c + "]"

    def s_closure(self):
        """Functions that share a variable, made in a loop or a block that ends."""
        r = self.r
        self.uid += 1
        u = self.uid
        w = r.random()
        fs = "fs%d" % u
        acc = r.choice(["c%d += 1" % u, "c%d = c%d * 2 + 1" % (u, u), "c%d -= k%d" % (u, u)])
        if w < 0.5:
            s = "let %s = []\x02for k%d <- %s {\x01let c%d = k%d\x02" % (fs, u, self.x("ilist", 1), u, u)
            s += "%s->push(fn() {\x01%s\x02return c%d\x02})\x02" % (fs, acc, u)
            if r.random() < 0.4:
                s += "if c%d > 2 {\x01%s\x02}\x02" % (u, r.choice(["break", "continue"]))
            if r.random() < 0.5:
                s += "%s->push(fn() {\x01return c%d\x02})\x02" % (fs, u)
            if r.random() < 0.5:
                s += "c%d += 100\x02" % u
            s += "}\x02"
        else:
            s = "let %s = (fn(c%d) {\x01const k%d = 3\x02" % (fs, u, u)
            s += "let g%d = [fn() {\x01%s\x02return c%d\x02}, fn() {\x01return c%d\x02}]\x02" % (u, acc, u, u)
            s += "c%d += 7\x02return g%d\x02})(%s)\x02" % (u, u, self.x("int", 1))
        self.scopes[-1][fs] = Info("fns", True)
        s += "for f%d <- %s + %s {\x01echo f%d()\x02}" % (u, fs, fs, u)
        return s

    def s_mut(self):
        r = self.r
        w = r.random()
        if w < 0.45:
            vs = self.vars("ilist")
            if not vs:
                return None
            n = r.choice(vs)
            return n + r.choice(["->push(%s)" % self.x("int", 1), "->insert(0, %s)" % self.x("int", 1), "->reverse()",
                                 "->clear()", "->push(%s)" % self.x("int", 1)])
        if w < 0.6:
            vs = self.vars("ilist")
            if not vs:
                return None
            n = r.choice(vs)
            return "if len %s > 1 {\x01%s\x02}" % (n, r.choice(["%s[0] = %s" % (n, self.x("int", 1)), "%s->pop()" % n,
                                                             "%s[-1] += 1" % n, "%s[0], %s[1] = %s[1], %s[0]" % (n, n, n, n)]))
        if w < 0.9:
            vs = self.vars("table")
            if not vs:
                return None
            n = r.choice(vs)
            return n + r.choice([".a = %s", "['s'] = %s", "[1] = %s", "[true] = %s", "->remove(%s)"]) % self.x("int", 1)
        vs = self.vars("set")
        return r.choice(vs) + r.choice(["->add(%s)", "->remove(%s)"]) % self.x("int", 1) if vs else None

    def s_comp(self):
        return "echo " + self.comp(2)[0]

    def s_setmt(self):
        self.uid += 1
        u = self.uid
        r = self.r
        op, nm = r.choice([("+", "__add"), ("-", "__sub"), ("*", "__mul"), ("<", "__lt"), ("&", "__band")])
        return ("let o%d = mt.set({.v: %s}, {.%s: fn(a, b) {\x01return %s\x02}, .__get: fn(a, k) {\x01return k\x02}})\x02echo (o%d %s %s)"
                % (u, self.x("int", 1), nm, self.x("int", 1), u, op, self.x("int", 1)))

    def s_block(self):
        return None


COMMENTS = ["# c\n", "/* c */", "/**/", "/* a\nb */", "#\n"]


def lay(s, r=None, p=0.0):
    """Renders generated text.  With r, breaks, comments and blank space vary with intensity p."""
    if r is None or p == 0:
        return s.replace("\x01", "").replace("\x02", "\n").encode("latin-1")
    out = []
    depth_line = []
    for c in s:
        if c == "\x01":
            if r.random() < p:
                out.append(r.choice(["\n", " ", "\t", "\n\n", "\n  "] + COMMENTS))
        elif c == "\x02":
            w = r.random()
            if w > p:
                out.append("\n")
            else:
                out.append(r.choice(["; ", ";", ";\n", "\n\n", " # c\n", ";# x\n", " /* y */\n", "/* a\n */", "\n \n", "\t\n", ";\n\n"]))
        else:
            out.append(c)
    return "".join(out).encode("latin-1")


def program(r, weights=None, budget=40, perr=0.0, depth=3, layout=0.0, feats=Gen.ALL):
    g = Gen(r, weights, budget, perr, depth, feats)
    s = g.stmts(r.randint(5, budget))
    return lay(s, r, layout)
