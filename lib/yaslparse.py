"""Lexer and parser of the reference model (written from the language's documentation and observed behaviour)."""

KEYWORDS = {b"break", b"const", b"continue", b"else", b"elseif", b"export", b"fn", b"for", b"if", b"echo", b"let",
            b"return", b"undef", b"while", b"len", b"assert", b"match"}
RESERVED = {b"header", b"global", b"enum", b"struct", b"pragma", b"yield", b"do", b"ifdef", b"elseifdef", b"use",
            b"no", b"pure", b"consteval", b"constexpr", b"constfold", b"extern", b"in", b"typename"}
OPS3 = {b"...", b"<<=", b">>=", b"===", b"!==", b"**=", b"//=", b"&&=", b"&^=", b"||=", b"??="}
OPS2 = {b":=", b"^=", b"+=", b"-=", b"->", b"==", b"=~", b"!=", b"!~", b"~=", b"*=", b"**", b"/=", b"//", b"%=",
        b"<=", b"<<", b"<-", b">=", b">>", b"&=", b"&&", b"&^", b"|=", b"||", b"??"}
OPS1 = b";()[]{}.,^+-!~*/%<>=&|?:"
END = {"ID", "STR", "INT", "FLOAT", "break", "continue", ")", "]", "}", "undef", "BOOL"}
DIG = b"0123456789"
HEX = b"0123456789abcdefABCDEF"
ALPHA = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$"
AUG = {b"^=", b"*=", b"/=", b"//=", b"%=", b"+=", b"-=", b">>=", b"<<=", b"||=", b"&&=", b"~=", b"&=", b"&^=",
       b"**=", b"|=", b"??="}
AUG = {a.decode() for a in AUG}
IMAX = (1 << 63) - 1
ESC = {97: 7, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9, 118: 11, 48: 0, 39: 39, 34: 34, 35: 35, 92: 92}


class Reject(Exception):
    """The program is ill-formed."""


class Lex:
    def __init__(self, src):
        self.s, self.n = src, len(src)
        self.p = 0          # next byte to read
        self.c = -1         # current byte, -1 past the end
        self.line = 1
        self.type = None
        self.val = None
        self.interp = False

    def get(self):
        if self.p < self.n:
            self.c = self.s[self.p]
        else:
            self.c = -1
        self.p += 1
        return self.c

    def save(self):
        return self.p, self.c, self.line, self.type, self.val, self.interp

    def restore(self, st):
        self.p, self.c, self.line, self.type, self.val, self.interp = st

    def ends(self):
        return self.type in END

    def tok(self):
        g = self.get
        g()
        s = self.s
        while self.c in (32, 10, 9, 35, 47):
            while self.c in (32, 10, 9):
                if self.c == 10:
                    self.line += 1
                    if self.ends():
                        self.type, self.val = ";", None
                        return
                g()
            if self.c == 35:
                while self.c not in (10, -1):
                    g()
                continue
            if self.c == 47:
                if self.p < self.n and s[self.p] == 42:
                    e = s.find(b"*/", self.p + 1)
                    if e < 0:
                        raise Reject("comment")
                    body = s[self.p + 1:e]
                    k = body.count(b"\n")
                    self.line += k
                    self.p = e + 2
                    self.c = 32
                    if k and self.ends():
                        self.c = 10
                        self.type, self.val = ";", None
                        return
                else:
                    break
        c = self.c
        if c == -1:
            self.type, self.val = "EOF", None
            return
        if c in DIG:
            return self.number()
        if c in ALPHA:
            b = self.p - 1
            while self.p < self.n and (s[self.p] in ALPHA or s[self.p] in DIG):
                self.p += 1
            w = s[b:self.p]
            prev = self.type
            self.type, self.val = "ID", w
            if prev not in (".", "->"):
                if w in KEYWORDS:
                    self.type = w.decode()
                elif w in (b"true", b"false"):
                    self.type = "BOOL"
                elif w in RESERVED:
                    self.type = "RESERVED"
            return
        if c == 39:
            return self.string()
        if c == 96:
            e = s.find(b"`", self.p)
            if e < 0:
                raise Reject("raw string")
            v = s[self.p:e]
            self.line += v.count(b"\n")
            self.p = e + 1
            self.type, self.val, self.interp = "STR", v, False
            self.c = 96
            return
        if c == 34:
            g()
            return self.body()
        for n, t in ((3, OPS3), (2, OPS2)):
            w = s[self.p - 1:self.p - 1 + n]
            if w in t:
                self.p += n - 1
                self.type, self.val = w.decode(), None
                return
        if c in OPS1:
            self.type, self.val = chr(c), None
            return
        raise Reject("character")

    def number(self):
        s, b = self.s, self.p - 1
        p = b
        n = self.n

        def at(i):
            return s[i] if i < n else -1

        if at(p) == 48 and at(p + 1) in (120, 88, 98, 66):
            base, ok = (16, HEX) if at(p + 1) in (120, 88) else (2, b"01")
            q = p + 2
            d = []
            while at(q) == 95:
                q += 1
            if at(q) == -1 or at(q) not in ok:
                raise Reject("int")
            while at(q) != -1 and (at(q) in ok or at(q) == 95):
                if at(q) != 95:
                    d.append(at(q))
                q += 1
            self.p = q
            self.type, self.val = "INT", min(int(bytes(d), base), IMAX)
            return
        q = p
        d = []
        while at(q) != -1 and (at(q) in DIG or at(q) == 95):
            if at(q) != 95:
                d.append(at(q))
            q += 1
        if at(q) == 46 and at(q + 1) != -1 and at(q + 1) in DIG:
            q += 1
            d.append(46)
            while at(q) != -1 and (at(q) in DIG or at(q) == 95):
                if at(q) != 95:
                    d.append(at(q))
                q += 1
            if at(q) in (101, 69):
                q += 1
                d.append(101)
                while at(q) == 95:
                    q += 1
                if at(q) in (43, 45):
                    d.append(at(q))
                    q += 1
                if at(q) == -1 or at(q) not in DIG:
                    raise Reject("float")
                while at(q) != -1 and (at(q) in DIG or at(q) == 95):
                    if at(q) != 95:
                        d.append(at(q))
                    q += 1
            self.p = q
            self.type, self.val = "FLOAT", float(bytes(d))
            return
        self.p = q
        self.type, self.val = "INT", min(int(bytes(d)), IMAX)

    def escape(self, out):
        c = self.get()
        if c == 120:
            h = bytes(x for x in (self.s[self.p:self.p + 2]) if x in HEX)
            if len(h) != 2:
                raise Reject("hex escape")
            out.append(int(h, 16))
            self.p += 2
        elif c in ESC:
            out.append(ESC[c])
        else:
            raise Reject("escape")

    def string(self):
        out = bytearray()
        while True:
            c = self.get()
            if c == 39:
                break
            if c in (-1, 10):
                raise Reject("string")
            if c == 92:
                self.escape(out)
            else:
                out.append(c)
        self.type, self.val, self.interp = "STR", bytes(out), False

    def body(self):
        """Double quoted string from the current byte up to the quote or an interpolation."""
        out = bytearray()
        while self.c not in (34, 35):
            if self.c in (-1, 10):
                raise Reject("string")
            if self.c == 92:
                self.escape(out)
            else:
                out.append(self.c)
            self.get()
        self.interp = self.c == 35
        self.type, self.val = "STR", bytes(out)


class Node:
    __slots__ = ("t", "line", "a", "b", "c", "d")

    def __init__(self, t, line, a=None, b=None, c=None, d=None):
        self.t, self.line, self.a, self.b, self.c, self.d = t, line, a, b, c, d

    def __repr__(self):
        return "(%s %r %r %r)" % (self.t, self.a, self.b, self.c)


LEFT = [({"==", "!=", "===", "!=="},), ({"<", "<=", ">", ">="},)]
LEVELS = [
    ("R", {"??"}), ("R", {"||"}), ("R", {"&&"}),
    ("L", {"==", "!=", "===", "!=="}), ("L", {"<", "<=", ">", ">="}), ("R", {"~"}), ("L", {"|"}), ("L", {"^"}),
    ("L", {"&", "&^"}), ("L", {"<<", ">>"}), ("L", {"+", "-"}), ("L", {"*", "/", "//", "%"}),
]


def expands(e):
    return e.t in ("call", "mcall")


class Parser:
    def __init__(self, src):
        self.x = Lex(src)
        self.x.tok()

    @property
    def t(self):
        return self.x.type

    @property
    def line(self):
        return self.x.line

    def eat(self, t):
        if self.x.type != t:
            raise Reject("expected %s, got %s (line %d)" % (t, self.x.type, self.x.line))
        v = self.x.val
        self.x.tok()
        return v

    def match(self, *t):
        if self.x.type in t:
            self.x.tok()
            return True
        return False

    def peek(self):
        st = self.x.save()
        try:
            self.x.tok()
            return self.x.type
        except Reject:
            return None
        finally:
            self.x.restore(st)

    def nl(self):
        while self.x.c == 10 and self.x.type == ";":
            self.x.tok()

    def program(self):
        out = []
        while self.t != "EOF":
            out.append(self.stmt())
            self.eat(";")
        return out

    def stmt(self):
        line, t = self.line, self.t
        if t == "echo":
            self.eat(t)
            return Node("echo", line, self.expr())
        if t == "fn":
            return self.fn() if self.peek() == "ID" else self.exprstmt()
        if t == "return":
            self.eat(t)
            es = [self.expr()]
            multi = self.t == ","
            while self.match(","):
                es.append(self.expr())
            return Node("return", line, es, multi)
        if t == "export":
            self.eat(t)
            return Node("export", line, self.expr())
        if t == "const":
            if self.peek() == "fn":
                self.eat("const")
                return self.fn(True)
            return self.decl()
        if t == "let":
            return self.decl()
        if t == "ID":
            return self.decl() if self.peek() == "," else self.exprstmt()
        if t == "for":
            return self.for_()
        if t == "while":
            self.eat(t)
            c = self.expr()
            return Node("while", line, c, Node("block", line, self.body()))
        if t in ("break", "continue"):
            self.eat(t)
            return Node(t, line)
        if t == "match":
            return self.match_()
        if t == "if":
            return self.if_()
        if t in ("elseif", "else"):
            raise Reject("else")
        if t == "assert":
            self.eat(t)
            return Node("assert", line, self.expr())
        return self.exprstmt()

    def exprstmt(self):
        line = self.line
        e = self.expr()
        if self.t == "=" or self.t in AUG:
            return self.assign(e)
        if self.t == "," and e.t == "get":
            return self.decl_rest([Node("set", line, e.a, e.b)], self.line)
        return Node("exprstmt", line, e)

    def assign(self, e):
        line = self.line
        if self.match("="):
            if e.t == "var":
                v = self.expr()
                return Node("assign", line, e.a, v)
            if e.t == "get":
                v = self.expr()
                return Node("set", line, e.a, e.b, v)
            raise Reject("l-value")
        op = self.t
        self.eat(op)
        if e.t == "var":
            return Node("assign", line, e.a, Node("bin", line, op[:-1], e, self.expr()))
        if e.t == "get":
            return Node("set", line, e.a, e.b, Node("bin", line, op[:-1], e, self.expr()))
        raise Reject("l-value")

    def lval(self):
        line = self.line
        if self.match("let"):
            return Node("let", line, self.eat("ID"))
        if self.match("const"):
            return Node("const", line, self.eat("ID"))
        e = self.call()
        if e.t == "var":
            return Node("assign", line, e.a)
        if e.t == "get":
            return Node("set", line, e.a, e.b)
        raise Reject("l-value")

    def decl(self):
        l = self.lval()
        return self.decl_rest([l], self.line)

    def decl_rest(self, ls, line):
        while self.match(","):
            ls.append(self.lval())
        self.eat("=")
        rline = self.line
        n = len(ls)
        rs = [self.expr()]
        while len(rs) < n and self.match(","):
            rs.append(self.expr())
        if expands(rs[-1]):
            if n - len(rs) + 1 > 127:
                raise Reject("too many")
        else:
            while len(rs) < n:
                rs.append(Node("undef", rline))
        return Node("decl", line, ls, rs)

    def body(self):
        line = self.line
        self.eat("{")
        out = []
        while self.t not in ("}", "EOF"):
            out.append(self.stmt())
            self.eat(";")
        self.eat("}")
        return Node("body", line, out)

    def params(self):
        out = []
        while self.t in ("ID", "const"):
            c = self.match("const")
            l = self.line
            out.append((c, self.eat("ID"), l))
            if not self.match(","):
                break
        return out

    def fn(self, const=False):
        self.eat("fn")
        line = self.line
        name = self.eat("ID")
        if not const and self.match("."):
            l2 = self.line
            key = self.eat("ID")
            self.eat("(")
            ps = self.params()
            self.eat(")")
            b = self.body()
            return Node("set", line, Node("var", line, name), Node("str", l2, key), Node("fn", l2, ps, b))
        self.eat("(")
        ps = self.params()
        self.eat(")")
        b = self.body()
        return Node("letfn", line, name, Node("fn", line, ps, b), const)

    def for_(self):
        line = self.line
        self.eat("for")
        if self.t == "let":
            self.eat("let")
            l2 = self.line
            name = self.eat("ID")
            self.eat("=")
            init = Node("let1", l2, name, self.expr())
            self.eat(";")
            cond = self.expr()
            self.eat(";")
            post = self.exprstmt()
            b = self.body()
            return Node("block", line, Node("body", line, [init, Node("while", line, cond, Node("block", line, b), post)]))
        name, coll, il = self.iterate()
        b = self.body()
        return Node("foriter", line, name, coll, Node("block", line, b), il)

    def iterate(self):
        line = self.line
        name = self.eat("ID")
        self.eat("<-")
        return name, self.expr(), line

    def match_(self):
        line = self.line
        self.eat("match")
        e = self.expr()
        self.eat("{")
        arms = []
        while self.t not in ("}", "EOF"):
            p = self.pattern()
            g = self.expr() if self.match("if") else None
            arms.append((p, g, self.body()))
            self.eat(";")
        self.eat("}")
        return Node("match", line, e, arms)

    def pattern(self):
        line = self.line
        p = self.psingle()
        if self.match("|"):
            return Node("palt", line, p, self.pattern())
        return p

    def psingle(self):
        line, t = self.line, self.t
        if self.match("*"):
            return Node("pany", line)
        if self.match("undef"):
            return Node("pundef", line)
        if self.match("let"):
            return Node("pbind", line, self.eat("ID"), False)
        if self.match("const"):
            return Node("pbind", line, self.eat("ID"), True)
        if self.match("("):
            p = self.pattern()
            self.eat(")")
            return p
        if t == "[":
            self.eat("[")
            var, ps = False, []
            if self.match("..."):
                var = True
            elif self.t != "]":
                ps.append(self.pattern())
                self.nl()
                while self.match(","):
                    if self.match("..."):
                        var = True
                        break
                    ps.append(self.pattern())
                self.nl()
            self.eat("]")
            return Node("plist", line, ps, var)
        if t == "{":
            self.eat("{")
            var, ps = False, []
            if self.match("..."):
                var = True
            elif self.t != "}":
                k = self.pprim()
                self.eat(":")
                ps.append((k, self.pattern()))
                self.nl()
                while self.match(","):
                    if self.match("..."):
                        var = True
                        break
                    k = self.pprim()
                    self.eat(":")
                    ps.append((k, self.pattern()))
                self.nl()
            self.eat("}")
            return Node("ptable", line, ps, var)
        return self.pprim()

    def pprim(self):
        line, t = self.line, self.t
        if t in ("INT", "FLOAT"):
            return Node("plit", line, self.eat(t))
        if t == "BOOL":
            return Node("pbool", line, self.eat(t) == b"true")
        if t == "-":
            self.eat("-")
            if self.t in ("INT", "FLOAT"):
                return Node("plit", line, -self.eat(self.t))
            raise Reject("pattern")
        if t == "STR":
            if self.x.interp:
                raise Reject("interpolated pattern")
            return Node("plit", line, self.eat(t))
        if t == ".":
            self.eat(".")
            return Node("plit", line, self.eat("ID"))
        if t == "ID":
            v = self.eat("ID")
            if v in (b"bool", b"int", b"float", b"str", b"list", b"table"):
                return Node("ptype", line, v)
        raise Reject("pattern")

    def if_(self):
        line = self.line
        self.x.tok()
        c = self.expr()
        th = Node("block", line, self.body())
        if self.t == "elseif":
            return Node("if", line, c, th, self.if_())
        if self.match("else"):
            l2 = self.line
            return Node("if", line, c, th, Node("block", l2, self.body()))
        return Node("if", line, c, th)

    # expressions
    def expr(self):
        line = self.line
        e = self.bin(0)
        if self.match("?"):
            a = self.expr()
            self.eat(":")
            b = self.expr()
            return Node("tri", line, e, a, b)
        return e

    def bin(self, i):
        if i == len(LEVELS):
            return self.unary()
        kind, ops = LEVELS[i]
        line = self.line
        e = self.bin(i + 1)
        if kind == "R":
            if self.t in ops:
                op = self.t
                self.eat(op)
                return Node("bin", line, op, e, self.bin(i))
            return e
        while self.t in ops:
            op = self.t
            self.eat(op)
            e = Node("bin", line, op, e, self.bin(i + 1))
        return e

    def unary(self):
        line = self.line
        if self.t in ("+", "-", "!", "^", "len"):
            op = self.t
            self.eat(op)
            return Node("un", line, op, self.unary())
        e = self.call()
        if self.match("**"):
            return Node("bin", line, "**", e, self.unary())
        return e

    def args(self):
        out = []
        while self.t not in (")", "EOF"):
            out.append(self.expr())
            if not self.match(","):
                break
        self.eat(")")
        return out

    def call(self):
        e = self.const()
        while True:
            t = self.t
            if t == "->":
                self.eat(t)
                r = self.const()
                if r.t != "var":
                    raise Reject("method")
                line = self.line
                self.eat("(")
                e = Node("mcall", line, e, r.a, self.args())
            elif t == ".":
                self.eat(t)
                line = self.line
                r = self.const()
                if r.t != "var":
                    raise Reject("member")
                e = Node("get", line, e, Node("str", r.line, r.a))
            elif t == "[":
                self.eat(t)
                line = self.line
                if self.match(":"):
                    e = Node("slice", line, e, Node("undef", line), Node("undef", line) if self.t == "]" else self.expr())
                else:
                    k = self.expr()
                    if self.match(":"):
                        e = Node("slice", line, e, k, Node("undef", line) if self.t == "]" else self.expr())
                    else:
                        e = Node("get", line, e, k)
                self.eat("]")
            elif t == "(":
                self.eat(t)
                line = self.line
                e = Node("call", line, e, self.args())
            else:
                return e

    def const(self):
        t, line = self.t, self.line
        if t == ".":
            self.eat(t)
            line = self.line
            return Node("str", line, self.eat("ID"))
        if t == "ID":
            return Node("var", line, self.eat("ID"))
        if t == "(":
            self.eat(t)
            e = self.expr()
            self.eat(")")
            return e
        if t == "[":
            return self.list()
        if t == "{":
            return self.table()
        if t == "STR":
            return self.string()
        if t == "INT":
            return Node("int", line, self.eat(t))
        if t == "FLOAT":
            return Node("float", line, self.eat(t))
        if t == "BOOL":
            return Node("bool", line, self.eat(t) == b"true")
        if t == "undef":
            self.eat(t)
            return Node("undef", line)
        if t == "fn":
            self.eat(t)
            self.eat("(")
            ps = self.params()
            self.eat(")")
            return Node("fn", line, ps, self.body())
        raise Reject("expression")

    def string(self):
        x = self.x
        e = Node("str", x.line, x.val)
        while x.interp:
            self.eat("STR")
            x.interp = False
            self.eat("{")
            k = self.expr()
            e = Node("bin", x.line, "~", e, k)
            if self.t != "}":
                raise Reject("interpolation")
            x.get()
            x.body()
            e = Node("bin", x.line, "~", e, Node("str", x.line, x.val))
        self.eat("STR")
        return e

    def comp(self, close):
        name, coll, il = self.iterate()
        cond = self.expr() if self.match("if") else None
        self.nl()
        self.eat(close)
        return name, coll, cond, il

    def table(self):
        line = self.line
        self.eat("{")
        if self.match("}"):
            return Node("table", line, [])
        ks = [self.expr()]
        self.eat(":")
        ks.append(self.expr())
        self.nl()
        if self.match("for"):
            return Node("tcomp", line, ks, self.comp("}"))
        while self.match(","):
            ks.append(self.expr())
            self.eat(":")
            ks.append(self.expr())
        self.nl()
        self.eat("}")
        return Node("table", line, ks)

    def list(self):
        line = self.line
        self.eat("[")
        if self.match("]"):
            return Node("list", line, [])
        ks = [self.expr()]
        self.nl()
        if self.match("for"):
            return Node("lcomp", line, ks, self.comp("]"))
        while self.match(","):
            ks.append(self.expr())
        self.nl()
        self.eat("]")
        return Node("list", line, ks)


def parse(src):
    try:
        return Parser(src).program()
    except RecursionError:
        raise Reject("too deep")
