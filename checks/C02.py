"""C02: evaluating an expression at compile time never changes its meaning."""
import re
from lib import dcheck, diff, vals, work, yaslref

BIN = ["+", "-", "*", "**", "/", "//", "%", "|", "^", "&", "&^", "<<", ">>", "==", "!=", "===", "!==", "<", "<=", ">", ">=",
       "&&", "||", "??", "~"]
LIT = {"int": [v for v in vals.INT if v[0] not in "-("], "float": [v for v in vals.FLOAT if v[0] not in "-m"],
       "bool": ["true", "false"], "str": ["''", "'a'", "'ab'", "\"b\"", "`c`", "'\\x00'", "'12'", ".key"], "undef": ["undef"]}


class E:
    """An expression of literals, kept as text with the literals numbered."""

    def __init__(self, r):
        self.r, self.lits = r, []

    def lit(self, t):
        self.lits.append(self.r.choice(LIT[t]))
        return "\x01%d\x02" % (len(self.lits) - 1)

    def e(self, t, d):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            return self.lit(t if t != "any" else r.choice(["int", "float", "bool", "str", "undef"]))
        w = r.random()
        if w < 0.04:
            return "(%s)" % self.e("any", d - 1)
        if w < 0.14:
            return "(%s ? %s : %s)" % (self.e(r.choice(["bool", "any"]), d - 1), self.e(t, d - 1), self.e(t, d - 1))
        if w < 0.24:
            return "(%s %s %s)" % (self.e(t, d - 1), r.choice(["&&", "||", "??"]), self.e(t, d - 1))
        if t == "any":
            return "(%s %s %s)" % (self.e(r.choice(["int", "float", "any"]), d - 1), r.choice(BIN), self.e(r.choice(["int", "any"]), d - 1))
        if t == "int":
            if w < 0.4:
                return "(%s%s)" % (r.choice("-^+"), self.e("int", d - 1))
            if w < 0.45:
                return "(len %s)" % self.e("str", d - 1)
            return "(%s %s %s)" % (self.e("int", d - 1), r.choice(["+", "-", "*", "//", "%", "|", "^", "&", "&^", "<<", ">>", "**", "+", "-", "*"]), self.e("int", d - 1))
        if t == "float":
            if w < 0.4:
                return "(%s%s)" % (r.choice("-+"), self.e("float", d - 1))
            return "(%s %s %s)" % (self.e("float", d - 1), r.choice(["+", "-", "*", "/", "**"]), self.e(r.choice(["float", "int"]), d - 1))
        if t == "bool":
            if w < 0.4:
                return "(!%s)" % self.e("any", d - 1)
            o = r.choice(["int", "float", "str"])
            return "(%s %s %s)" % (self.e(o, d - 1), r.choice(["==", "!=", "<", "<=", ">", ">=", "===", "!=="]), self.e(o, d - 1))
        if t == "str":
            return "(%s ~ %s)" % (self.e(r.choice(["str", "any"]), d - 1), self.e(r.choice(["str", "any"]), d - 1))
        return "(%s ?? %s)" % (self.e("undef", d - 1), self.e("undef", d - 1))

    def text(self, s, named):
        return re.sub("\x01(\\d+)\x02", (lambda m: "v" + m.group(1)) if named else (lambda m: self.lits[int(m.group(1))]), s)

    def decls(self):
        return "".join("let v%d = %s\n" % (i, l) for i, l in enumerate(self.lits))


CONTEXTS = [
    "show(@)\n", "echo [@, @]\n", "let q = @\nshow(q)\n", "const q = @\nshow(q)\n", "@\necho 'end'\n",
    "if @ { echo 'yes'; } else { echo 'no'; }\n", "if @ { echo 'yes'; } elseif @ { echo 'two'; }\necho 'end'\n",
    "if @ { let z = 1; echo z; }\necho 'end'\n",
    "let n = 0\nwhile @ { n += 1; if n > 2 { break; }; }\necho n\n", "for let i = 0; @ && i < 3; i += 1 { echo i; }\necho 'end'\n",
    "let n = 0\nfor let i = 0; @; i += 1 { n += 1; if n > 2 { break; }; }\necho n\n",
    "echo 1 || @\n", "echo false && @\necho 'end'\n", "echo 5 ?? @\n", "echo true ? 1 : @\n", "echo false ? @ : 2\n",
    "fn f() { return @; }\necho 'end'\n", "fn f() { return @; }\nshow(f())\n", "if false { show(@); }\necho 'end'\n",
    "while false { show(@); }\necho 'end'\n", "let l = [@, 1]\nshow(l[0])\n", "echo \"a#{@}b\"\n", "let x = 5\nx += @\nshow(x)\n",
    "match @ { int { echo 'i'; } float { echo 'f'; } * { echo 'o'; } }\n", "assert @\necho 'end'\n", "echo {@: 1}\n", "echo {1: @}[1]\n",
    "echo [@ for i <- [1, 2]]\n", "echo [i for i <- [1, 2] if @]\n", "let a, let b = @, @\nshow(b)\n", "show(-(@))\n", "show(len (@))\n",
    "echo [10, 20, 30][@]\n", "echo 'abcdef'[@:]\n", "let f = fn(a, b) { return b; }\nshow(f(1, @))\n", "echo (@)->tostr()\n",
]


def build(r, d):
    x = E(r)
    ctx = r.choice(CONTEXTS)
    t = r.choice(["any", "any", "int", "int", "float", "bool", "str", "undef"])
    if "[10, 20" in ctx or "'abcdef'" in ctx or "+=" in ctx:
        t = "int"
    if ctx.startswith(("if", "while")) or "&& i <" in ctx or "if @" in ctx or "; @;" in ctx:
        t = r.choice(["bool", "any", "int", "undef"])
    while "@" in ctx:
        ctx = ctx.replace("@", x.e(t, r.randint(1, d)), 1)
    return x, ctx


def literal(r):
    x, s = build(r, 4)
    return (vals.SHOW + x.text(s, False)).encode("latin-1")


def pair(r):
    """The same program on literals and on variables holding them, both on the interpreter."""
    x, s = build(r, 3)
    a = (vals.SHOW + x.decls() + x.text(s, False)).encode("latin-1")
    b = (vals.SHOW + x.decls() + x.text(s, True)).encode("latin-1")

    def run():
        sv = work.server()
        ra, rb = sv.prog(a, cpu=2), sv.prog(b, cpu=2)
        info = {"exit %s" % ra.code: 1}
        if ra.timeout or rb.timeout or ra.oom or rb.oom:
            return "skip", "timeout", a, {}, b""
        if b"function" in ra.out:
            return "skip", "address", a, {}, b""
        bad = None
        if ra.san or rb.san:
            bad = "memory: %s" % (ra.san or rb.san)
        elif (ra.code, ra.out) != (rb.code, rb.out):
            bad = "literals: status %s %r, variables: status %s %r" % (ra.code, ra.out[-200:], rb.code, rb.out[-200:])
        elif ra.code and yaslref.parse_err(ra.err)[0] != yaslref.parse_err(rb.err)[0]:
            bad = "literals: %r, variables: %r" % (ra.err[:200], rb.err[:200])
        if bad:
            return "differs", bad, a, info, b"\n# ---- with variables ----\n" + b
        return "ok", "", a, info, b""
    return run


GRID = (["0", "1", "2", "3", "7", "63", "64", "255", "(-1)", "(-2)", "(-64)", "2147483648", "9007199254740993", "3037000500", "4611686018427387904",
         "9223372036854775807", "(-9223372036854775807)", "(-9223372036854775807 - 1)",
         "0.0", "(-0.0)", "0.5", "1.0", "(-1.0)", "2.0", "3.0", "(-2.0)", "63.0", "9007199254740992.0", "9223372036854775808.0", "(-9223372036854775808.0)",
         "1.0e300", "5.0e-324", "(0.0 / 0.0)", "(1.0 / 0.0)", "(-1.0 / 0.0)"]
        + ["true", "false", "undef", "''", "'a'", "'ab'", "'b'", "'1'", "[]", "{}", "math"])
UN = ["-", "+", "^", "!", "len ", "- -", "!!", "^ ^", "-^", "+-"]
TERN = ["%s ? 1 : 2", "!(%s) ? 1 : 2", "%s && 5", "%s || 5", "%s ?? 5", "false || %s", "true && %s", "undef ?? %s", "%s -> tostr()"]


def lines(op):
    """Expressions with two named operands each: (text, left, right)."""
    if op == "unary":
        return [(u + "@", i, i) for u in UN for i in range(len(GRID))] + [(t.replace("%s", "@"), i, i) for t in TERN for i in range(len(GRID))]
    ids = [i for i, g in enumerate(GRID) if op not in ("===", "!==") or g not in ("[]", "{}")]  # a literal makes a new object each time
    return [("@ %s $" % op, i, j) for i in ids for j in ids]


def session(op, named):
    """One REPL session that shows every expression after a marker."""
    out = ["let v%d = %s" % (i, g) for i, g in enumerate(GRID)]
    for k, (t, i, j) in enumerate(lines(op)):
        a, b = ("v%d" % i, "v%d" % j) if named else (GRID[i], GRID[j])
        e = t.replace("@", a).replace("$", b)
        out.append("echo '#%d'" % k)
        # the second line tells -0.0 from 0.0 and ints from floats
        out.append("echo %s; echo 1.0 / (%s)" % (e, e))
    return ("\n".join(out) + "\necho '#end'\n").encode()


def grid_run(op):
    sv = work.server()
    res = []
    for named in (False, True):
        r = sv.call(["yasl"], stdin=session(op, named), cpu=60, wall=200)
        if r.san or r.signal or not r.done:
            return op, "died", "%s: %s" % ("variables" if named else "literals", r.san or r.signal), session(op, named)
        parts = re.split(rb"^(?:yasl> )*#(\d+|end)$", r.out, flags=re.M)[1:]
        res.append((dict(zip(parts[::2], parts[1::2])), [yaslref.parse_err(l)[0] for l in re.findall(rb"^.*\(line \d+\)$", r.err, re.M)]))
    (a, ea), (b, eb) = res
    ls = lines(op)
    n = 0
    for k, (t, i, j) in enumerate(ls):
        x, y = a.get(b"%d" % k), b.get(b"%d" % k)
        if x is None or y is None:
            return op, "lost", "no output for %s" % t.replace("@", GRID[i]).replace("$", GRID[j]), session(op, False)
        if x != y and b"function" not in x and b"fn" not in x:
            return op, "differs", "%s: literals %r, variables %r" % (t.replace("@", GRID[i]).replace("$", GRID[j]), x, y), session(op, False)
        n += 1
    if ea != eb:
        return op, "differs", "errors: literals %d, variables %d, first difference %s" % (len(ea), len(eb), next((p for p in zip(ea, eb) if p[0] != p[1]), None)), session(op, False)
    return op, "ok", (n, len(ea)), b""


def grid(c):
    """Every operator on every pair of a fixed set of literals."""
    for op, st, detail, src in work.pmap(grid_run, BIN + ["unary"], chunk=1):
        if st != "ok":
            c.violation("grid %s %s" % (op, detail), "grid of %s, %s: %s" % (op, st, detail), src)
            continue
        c.count("grid expressions equal on literals and on variables", detail[0])
        c.count("grid errors equal", detail[1])
        c.observe("grid " + op, True)


dcheck.main("C02", "distinct generated programs in which constant expressions in various contexts behaved as the same expressions on variables",
            {"literals against the reference": (7000, 250000, literal), "literals against variables": (3000, 100000, pair)},
            extra=grid)
