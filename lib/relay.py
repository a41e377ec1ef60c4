"""Rewrites a program text without changing what it means: layout, spelling of literals, redundant parentheses, names."""
from . import yaslparse as Y

IDS = frozenset(Y.ALPHA)
END = {"ID", "STR", "INT", "FLOAT", "BOOL"}
ENDW = {b"break", b"continue", b"undef", b")", b"]", b"}"}


class Tok:
    __slots__ = ("t", "x", "v", "gap")

    def __init__(self, t, x, v=None, gap=b""):
        self.t, self.x, self.v, self.gap = t, x, v, gap

    def ends(self):
        return self.t in END or self.x in ENDW


def scan(s, i=0, close=False):
    """Tokens of s from i; with close, up to the brace that ends an interpolation.  Returns (tokens, position)."""
    out = []
    depth = 0
    n = len(s)
    gap = b""
    while True:
        if i >= n:
            if close:
                raise Y.Reject("interpolation")
            break
        c = s[i]
        last = out[-1] if out else None
        if c == 10 and last and last.ends():
            out.append(Tok("NL", b"\n"))
            i += 1
            gap = b""
            continue
        if c in (32, 9, 10):
            gap = b" "
            i += 1
            continue
        if c == 35:
            while i < n and s[i] != 10:
                i += 1
            continue
        if s[i:i + 2] == b"/*":
            e = s.find(b"*/", i + 2)
            if e < 0:
                raise Y.Reject("comment")
            if b"\n" in s[i:e] and last and last.ends():
                out.append(Tok("NL", b"\n"))
                gap = b""
            else:
                gap = b" "
            i = e + 2
            continue
        if c == 34:
            parts = []
            i += 1
            while True:
                L = Y.Lex(s)
                L.p = i
                L.get()
                L.body()
                parts.append(L.val)
                i = L.p
                if not L.interp:
                    break
                if s[i:i + 1] != b"{":
                    raise Y.Reject("string")
                inner, i = scan(s, i + 1, True)
                parts.append(inner)
            if len(parts) == 1:
                out.append(Tok("STR", None, parts[0], gap))
            else:
                out.append(Tok("ISTR", None, parts, gap))
                out[-1].t = "STR"
            gap = b""
            continue
        if close and c == 125 and depth == 0:
            return out, i + 1
        L = Y.Lex(s)
        L.p = i
        L.type = last.x.decode() if last and last.x in (b".", b"->") else None
        L.tok()
        x = s[i:L.p]
        if c == 123:
            depth += 1
        if c == 125:
            depth -= 1
        t = L.type
        if t not in ("ID", "STR", "INT", "FLOAT", "BOOL"):
            t = "OP"
        out.append(Tok(t, x, L.val, gap))
        gap = b""
        i = L.p
    return out, i


COMMENTS1 = [b"/* c */", b"/**/", b"/* \" ' ` #{ } */", b"/* let x = 1; */"]
COMMENTSN = [b"# c\n", b"#\n", b"/*\n*/", b"\n", b"\n\n", b"# \" ' ` /* \n", b"/* a\n# b\n */"]


class Rewriter:
    """kinds: subset of layout ends spelling parens names."""

    def __init__(self, r, kinds, p=0.25):
        self.r, self.k, self.p = r, kinds, p
        self.names = {}

    def do(self, src):
        toks, _ = scan(src)
        if "names" in self.k:
            self.collect(toks)
        return self.render(toks, False)

    # ---- names
    def collect(self, toks):
        decl, other = set(), set()

        def walk(ts):
            for i, t in enumerate(ts):
                if t.t == "STR" and isinstance(t.v, list):
                    for x in t.v[1::2]:
                        walk(x)
                if t.t != "ID" or i and ts[i - 1].x in (b".", b"->"):
                    continue
                prev = ts[i - 1].x if i else b""
                nxt = ts[i + 1].x if i + 1 < len(ts) else b""
                if prev in (b"let", b"const") or prev == b"for" and nxt == b"<-" or prev == b"fn":
                    decl.add(t.x)
                other.add(t.x)
                if prev == b"fn" or t.x == b"fn":
                    pass
            # parameters
            i = 0
            while i < len(ts):
                if ts[i].x == b"fn":
                    j = i + 1
                    if j < len(ts) and ts[j].t == "ID":
                        j += 1
                    if j < len(ts) and ts[j].x == b"(":
                        j += 1
                        while j < len(ts) and ts[j].x != b")":
                            if ts[j].t == "ID":
                                decl.add(ts[j].x)
                            j += 1
                i += 1
        walk(toks)
        keep = {b"io", b"math", b"mt", b"collections", b"require", b"args", b"error", b"__VERSION__"}
        r = self.r
        taken = set(other) | keep | Y.KEYWORDS | Y.RESERVED | {b"true", b"false"}
        for d in sorted(decl):
            if d in keep or d.startswith(b"__"):
                continue
            while True:
                k = r.random()
                if k < 0.3:
                    new = b"v%d" % r.randint(0, 999)
                elif k < 0.6:
                    new = r.choice([b"_", b"$", b"len_", b"iff", b"fnx", b"undefx", b"truE", b"$$", b"__"]) + b"%d" % r.randint(0, 99)
                elif k < 0.8:
                    new = d + r.choice([b"_", b"x", b"0", d, b"$"])
                else:
                    new = bytes(r.choice(Y.ALPHA) for _ in range(r.randint(1, 40)))
                if new not in taken:
                    break
            taken.add(new)
            self.names[d] = new

    # ---- literals
    def sep(self, d):
        r = self.r
        return "".join(c + ("_" if i < len(d) - 1 and r.random() < 0.25 else "") for i, c in enumerate(d))

    def int(self, t):
        r = self.r
        v = t.v
        if v >= Y.IMAX:
            return t.x
        b = r.choice("dddxXbB") if v < 1 << 24 else r.choice("dx")
        d = {"d": "%d" % v, "x": "%x" % v, "X": "%X" % v}.get(b) or bin(v)[2:]
        return ({"d": "", "x": "0x", "X": "0X"}.get(b, "0" + b) + self.sep(d)).encode()

    def float(self, t):
        s = t.x.decode().replace("_", "")
        m, e = s, ""
        for c in "eE":
            if c in s:
                m, e = s.split(c)
                e = self.r.choice("eE") + e
        a, b = m.split(".")
        return (self.sep(a) + "." + self.sep(b) + e).encode()

    def chars(self, b, q):
        r = self.r
        out = b""
        esc = {v: k for k, v in Y.ESC.items()}
        for c in b:
            must = c in (92, 10) or c == q or q == 34 and c == 35
            w = r.random()
            if c in esc and (must or w < 0.1):
                out += b"\\" + bytes([esc[c]]) if w < 0.7 or False else b"\\x%02x" % c
            elif w < 0.05 or c in (0, 13):
                out += r.choice([b"\\x%02x", b"\\x%02X"]) % c
            else:
                out += bytes([c])
        return out

    def str(self, t, prev, nxt):
        r = self.r
        if isinstance(t.v, list):
            s = b'"'
            for i, p in enumerate(t.v):
                s += self.chars(p, 34) if i % 2 == 0 else b"#{" + self.render(p, True) + b"}"
            return s + b'"'
        if "spelling" not in self.k:
            if t.x is not None:
                return t.x
            return b'"' + self.chars(t.v, 34) + b'"'
        q = r.choice([39, 34, 96])
        if q == 96 and (96 in t.v or 0 in t.v or 10 in t.v):
            q = 39
        if q == 96:
            return b"`" + t.v + b"`"
        return bytes([q]) + self.chars(t.v, q) + bytes([q])

    # ---- layout
    def space(self, prev, t, inner):
        r = self.r
        need = t.gap != b""
        if "layout" not in self.k:
            return b" " if need else b""
        if prev is None:
            return r.choice([b"", b" ", b"\n", b"# c\n", b"/* c */ "]) if not inner else b""
        ends = prev.ends()
        if need and (prev.x or b"")[:1] in (b"(", b"[", b"{", b",", b";") and r.random() < 0.4:
            return b""
        if r.random() >= self.p:
            return b" " if need else b""
        opts = [b" ", b"  ", b"\t", b" \t "]
        out = r.choice(opts)
        if r.random() < 0.5:
            out += r.choice(COMMENTS1)
        if not ends and not inner and r.random() < 0.5:
            out += r.choice(COMMENTSN)
        # "/" right before a comment would start another token
        return b" " + out + b" " if (prev.x or b"").endswith(b"/") else out + (b" " if need else b"")

    def end(self, block):
        r = self.r
        if "ends" not in self.k or r.random() > self.p + 0.2:
            return b"\n"
        if not block:
            # inside a bracket a line end is not a statement end
            return r.choice([b"\n", b"\n\n", b" # c\n", b" /* c\n */", b"/*\n*/", b"\n# c\n", b"\t\n"])
        return r.choice([b";", b"; ", b";\n", b"\n\n", b" \n", b" # c\n", b"; # c\n", b" /* c\n */", b"\n# c\n", b" ;", b";\n\n", b"/* c */\n", b"/*\n*/", b" /*\n c */ ", b"/* c */ /*\n*/", b"/**\n**/", b"/*/\n*/", b"/*\n\n*/ ", b"\n\n\n"])

    def render(self, toks, inner):
        out = []
        prev = None
        opened = []
        for i, t in enumerate(toks):
            if t.t == "OP" and t.x in (b"(", b"[", b"{"):
                opened.append(t.x == b"{" and prev is not None and prev.t != "NL" and (prev.ends() or prev.x == b"else"))
            elif t.t == "OP" and t.x in (b")", b"]", b"}") and opened:
                opened.pop()
            nxt = toks[i + 1] if i + 1 < len(toks) else None
            if t.t == "NL":
                out.append(self.end(not opened or opened[-1]) if not inner else b"\n")
                prev = None if False else Tok("NL", b"\n")
                continue
            out.append(self.space(prev, t, inner))
            x = t.x
            if t.t == "STR":
                x = self.str(t, prev, nxt)
            elif t.t == "INT" and "spelling" in self.k and self.r.random() < 0.6:
                x = self.int(t)
            elif t.t == "FLOAT" and "spelling" in self.k and self.r.random() < 0.6:
                x = self.float(t)
            elif t.t == "ID" and not (prev and prev.x in (b".", b"->")):
                x = self.names.get(t.x, t.x)
            if "parens" in self.k and t.t in ("INT", "FLOAT", "STR", "BOOL") and prev is not None and self.r.random() < 0.3 and (
                    prev.x in (b"=", b"+", b"*", b"/", b"(", b"[", b"return", b"echo", b"==", b"!=", b"<", b">", b"<=", b">=", b"&&", b"||", b"??", b"~", b",", b"<-",
                               b"+=", b"-=", b"*=", b"~=", b"if", b"|", b"//", b"%", b"**")) and not (nxt and nxt.x == b":"):
                k = self.r.choice([1, 1, 1, 2, 5])
                x = (b" " if prev.x in (b"return", b"echo", b"if") else b"") + b"(" * k + x + b")" * k
            out.append(x)
            prev = t
        return b"".join(out)
