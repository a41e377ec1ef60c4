"""C08: strings are immutable byte sequences and string operations are exact."""
from lib import big, dcheck, sessions, vals
from lib.sessions import hot

ZERO = ["tofloat", "toint", "isalnum", "isal", "isnum", "isspace", "tobool", "tostr", "toupper", "tolower", "__len"]
ALPH = {"ab": b"ab", "aba": b"aaab", "case": b"aAzZ@[`{09/: \t\n\v\r\f_", "bytes": bytes(range(256)), "num": b"0123456789_.xXbBeE-+afin ", "sep": b"a, ,;\n",
        "nul": b"\0\0a\xff"}


def lit(r, b):
    """A literal of b in one of the spellings; every other way of getting it is made with mk()."""
    out = []
    for c in b:
        ch = chr(c)
        if ch.isalnum() and c < 128 or ch in " ,.;:_-+@[]{}()<>=":
            out.append(ch if r.random() < 0.97 else "\\x%02x" % c)
        else:
            out.append("\\x%02X" % c)
    return "'" + "".join(out) + "'"


def data(r, alph=None, n=None):
    alph = ALPH[alph or r.choice(sorted(ALPH))]
    w = r.random()
    k = n if n is not None else r.randint(0, 8) if w < 0.8 else r.randint(9, 40) if w < 0.97 else r.choice([127, 128, 129, 255, 256, 300])
    return bytes(r.choice(alph) for _ in range(k))


def mk(r, b):
    """An expression whose value is b: a literal, or a piece of a longer string."""
    w = r.random()
    if w < 0.45:
        return lit(r, b)
    pre, post = data(r, n=r.randint(0, 3)), data(r, n=r.randint(0, 3))
    whole = pre + b + post
    if w < 0.7:
        if not pre and not post:
            return lit(r, b)
        i, j = len(pre), len(pre) + len(b)
        si = str(i) if r.random() < 0.6 or i == len(whole) else str(i - len(whole))
        sj = str(j) if r.random() < 0.6 or j == len(whole) else str(j - len(whole))
        if not pre and r.random() < 0.5 and post:
            si = ""
        if not post and r.random() < 0.5 and pre:
            sj = ""
        return "%s[%s:%s]" % (lit(r, whole), si, sj)
    if w < 0.8:
        i = r.randint(0, len(b))
        return "(%s ~ %s)" % (lit(r, b[:i]), lit(r, b[i:]))
    if w < 0.88 and b"|" not in b:
        return "%s->split('|')[1]" % lit(r, pre.replace(b"|", b"") + b"|" + b + b"|" + post)
    if w < 0.93 and len(b) == 1:
        return "[x for x <- %s][%d]" % (lit(r, pre + b), len(pre))
    if w < 0.97:
        i, j = len(pre), len(pre) + len(b)
        return "%s[%d:][:%d]" % (lit(r, b"z" + whole), i + 1, j - i) if False else "%s[1:][%d:%d]" % (lit(r, b"z" + whole), i, j)
    return "[%s]->join('')" % ", ".join(lit(r, b[i:i + 2]) for i in range(0, len(b), 2))


def sub(r, b):
    """A string related to b: often a piece of it."""
    w = r.random()
    if b and w < 0.6:
        i = r.randint(0, len(b) - 1)
        return b[i:i + r.randint(1, 3)]
    if b and w < 0.65:
        return b + r.choice([b"", b"a", b[:1]])
    return data(r, n=r.randint(0, 3))


KEEP = """fn cs(x) {
 let h = len x
 for c <- x { h = (h * 31 + (c == '' ? 7 : c < 'a' ? 1 : c < 'z' ? 2 : 3)) % 1000003; }
 return h
}
"""


def ops(r):
    """Operations on strings obtained in different ways; the operands are printed again afterwards."""
    out = [vals.SHOW]
    alph = r.choice(sorted(ALPH))
    a = data(r, alph)
    b = sub(r, a) if r.random() < 0.6 else data(r, alph)
    c = data(r, n=r.randint(0, 3))
    out.append("let a = %s\nlet b = %s\nlet c = %s\n" % (mk(r, a), mk(r, b), mk(r, c)))
    n = len(a)
    for k in range(r.randint(3, 8)):
        v = r.choice("aaab")
        m = len(a) if v == "a" else len(b)
        o = r.choice("bbcca")
        w = r.random()
        if w < 0.2:
            op = "show(%s->%s())" % (v, r.choice([z for z in ZERO if z not in ("toint", "tofloat")]))
        elif w < 0.26:
            op = "show(%s->startswith(%s))\nshow(%s->endswith(%s))" % (v, o, v, o)
        elif w < 0.34:
            op = "show(%s->search(%s))" % (v, o)
        elif w < 0.40 and (b if o == "b" else c if o == "c" else a):
            op = "show(%s->count(%s))" % (v, o)
        elif w < 0.48 and b:
            op = "show(%s->replace(b, %s%s))" % (v, r.choice("abc"), r.choice(["", ", %d" % r.randint(-1, 4), ", undef"]))
        elif w < 0.56:
            op = "let s%d = %s->split(%s)\nshow(s%d)\nfor x <- s%d { show(x); }\necho s%d->join(%s)" % (k, v, "b" if b and r.random() < 0.8 else "", k, k, k, r.choice(["b", "c", "'-'"]))
        elif w < 0.64:
            op = "show(%s->%s(%s))" % (v, r.choice(["trim", "ltrim", "rtrim"]), r.choice(["", "b", "c", "a[:1]" if n else ""]))
        elif w < 0.68:
            op = "show(%s->rep(%d))" % (v, r.choice([0, 1, 2, 3, 7]))
        elif w < 0.78 and m:
            i, j = sorted([r.randint(0, m), r.randint(0, m)])
            op = "show(%s[%s:%d])" % (v, i if r.random() < 0.5 or i == m else i - m, j)
        elif w < 0.84 and m:
            op = "show(%s[%d])" % (v, r.randrange(-m, m))
        elif w < 0.9:
            op = "echo [%s %s %s, %s == %s, %s != %s]" % (v, r.choice(["<", "<=", ">", ">="]), o, v, o, v, o)
        elif w < 0.94:
            op = "for x <- %s { show(x); }" % v
        else:
            op = "show(%s ~ %s ~ %s)\nlet t%d = {%s: 1}\necho t%d[%s ~ '']" % (v, o, v, k, v, k, v)
        out.append(op + "\n")
    out.append("show(a)\nshow(b)\nshow(c)\necho a ~ b == %s ~ %s\necho len a\n" % (lit(r, a), lit(r, b)))
    return "".join(out).encode()


def relations(r):
    """Strings that are nearly the same, in every operation that compares them."""
    a = data(r, r.choice(["nul", "nul", "ab", "case", "bytes"]), r.choice([0, 1, 2, 3, 4, 8, 16, 17, 40]))
    ss = [a] + [vals.nearstr(r, a) for _ in range(3)]
    if r.random() < 0.5:
        ss[3] = vals.nearstr(r, ss[2])
    out = [vals.SHOW] + ["let s%d = %s\n" % (i, mk(r, s)) for i, s in enumerate(ss)]
    for _ in range(6):
        x, y = r.sample("0123", 2)
        w = r.random()
        out.append(("echo [s{0} < s{1}, s{0} <= s{1}, s{0} > s{1}, s{0} >= s{1}, s{0} == s{1}, s{0} != s{1}, s{0} === s{1}, s{0} !== s{1}]\n" if w < 0.6 else
                    "echo [s{0}->startswith(s{1}), s{0}->endswith(s{1}), s{0}->search(s{1}), len s{1} > 0 ? s{0}->count(s{1}) : 0]\n" if w < 0.8 else
                    "if len s{1} > 0 {{ echo s{0}->split(s{1}); echo s{0}->replace(s{1}, '-'); echo (s{0} ~ s{1} ~ s{0})->split(s{1}); }}\n").format(x, y))
    w = r.random()
    if w < 0.4:
        out.append("let l = [s0, s1, s2, s3]\nl->sort()\nfor x <- l { show(x); }\n")
    elif w < 0.7:
        out.append("let t = {s0: 0}\nt[s1] = 1\nt[s2] = 2\nt[s3] = 3\necho len t\necho [t[s0], t[s1], t[s2], t[s3]]\n")
    else:
        out.append("let t = collections.set(s0, s1)\necho [len t, t[s0], t[s1], t[s2], t[s3]]\nmatch s0 {\n%s { echo 'one'; }\n%s { echo 'two'; }\n* { echo 'none'; }\n}\n" % (vals.slit(ss[1]), vals.slit(ss[2])))
    return "".join(out).encode("latin-1")


SIG = {"startswith": 1, "endswith": 1, "replace": 3, "search": 1, "count": 1, "split": 1, "ltrim": 1, "rtrim": 1, "trim": 1, "__get": 1, "rep": 1}


def edges(r):
    """Arguments of every type and extreme, and the state afterwards."""
    a = data(r, r.choice(["ab", "case", "nul", "sep"]))
    n = len(a)
    out = [vals.SHOW, "let a = %s\n" % mk(r, a)]
    for _ in range(r.randint(5, 20) if hot(r) else r.randint(1, 3)):
        w = r.random()

        def arg():
            x = r.random()
            if x < 0.35:
                return str(r.choice([0, 1, -1, n, -n, n - 1, n + 1, -n - 1]))
            if x < 0.75:
                return lit(r, sub(r, a))
            return vals.val(r)
        if w < 0.55:
            k = r.choice(sorted(SIG))
            c = SIG[k] if r.random() < 0.85 else r.randint(0, 4)
            if k == "replace" and r.random() < 0.6:
                args = "%s, %s%s" % (lit(r, sub(r, a)), lit(r, data(r, n=2)), r.choice(["", ", " + arg(), ", " + vals.rint(r)]))
            elif k == "rep" and r.random() < 0.6:
                args = r.choice(["9223372036854775807", "-1", "4611686018427387904", "(-9223372036854775807 - 1)", "0", "1", "2305843009213693952"])
            else:
                args = ", ".join(arg() for _ in range(c))
            out.append("show(a->%s(%s))\n" % (k, args))
        elif w < 0.7:
            out.append("show(a[%s])\n" % arg())
        elif w < 0.9:
            out.append("show(a[%s:%s])\n" % (arg() if r.random() < 0.8 else "", arg()))
        elif w < 0.95:
            out.append("a[%s] = %s\n" % (arg(), arg()))
        else:
            out.append("show(a %s %s)\n" % (r.choice(["<", ">", "<=", ">=", "==", "~"]), arg()))
        out.append("show(a)\n")
    return "".join(out).encode("latin-1")


def numeric(r):
    out = [vals.SHOW]
    for i in range(6):
        t = vals.judgedtext(r)
        out.append("let n%d = %s\nshow(n%d->%s())\n" % (i, mk(r, t.encode('latin-1')), i, r.choice(["toint", "tofloat"])))
    return "".join(out).encode()


def classes(r):
    """Every byte once through the classification, case and order operations."""
    out = ["let t = []\n"]
    base = r.randrange(256)
    for k in range(8):
        c = (base + k * 32 + r.randint(0, 31)) % 256
        out.append("let c = '\\x%02x'\n" % c if not k else "c = '\\x%02x'\n" % c)
        out.append("echo [%d, c->isalnum(), c->isal(), c->isnum(), c->isspace(), c->toupper(), c->tolower(), c < 'a', c > '0', len c]\n" % c)
        out.append("echo ('1' ~ c)->isnum()\necho ('a' ~ c)->isal()\necho (c ~ 'a')->isalnum()\necho (' ' ~ c)->isspace()\necho ('%s' ~ c ~ 'b')->trim()\n" % r.choice(["", " "]))
        out.append("echo ('a' ~ c ~ 'b' ~ c)->split(c)\necho ('a' ~ c ~ 'b' ~ c)->replace(c, '..')\necho (c ~ c ~ 'b' ~ c)->trim(c)\necho ('a ' ~ c ~ ' b')->split()\n")
    return "".join(out).encode()


def pieces(r):
    """Chains of slices, splits and joins sharing one buffer; every string is checked again at the end."""
    out = ["let ss = [%s]\n" % mk(r, data(r, r.choice(["ab", "sep", "case"]), r.randint(4, 30)))]
    out.append("let orig = [x ~ '' for x <- ss]\nfn keep(x) {\n ss->push(x)\n orig->push(x ~ '')\n}\n")
    for _ in range(r.randint(4, 25)):
        out.append(r.choice([
            "keep(ss[-1][%d:])\n" % r.randint(0, 2) if r.random() < 0.3 else "keep(len ss[-1] > 2 ? ss[-1][1:-1] : ss[0])\n",
            "keep(ss[0][%d:%d])\n" % (r.randint(0, 2), r.randint(2, 4)),
            "for x <- ss[-1]->split(%s) { keep(x); }\n" % r.choice(["' '", "'a'", "','", ""]),
            "keep(ss[-1] ~ ss[0][:2])\n", "for x <- ss[-1] { if len ss < 60 { keep(x); }; }\n", "keep(ss[-1]->toupper())\n", "keep(ss[-1]->trim())\n",
            "keep(ss[-1]->replace('a', 'bb'))\n", "keep(ss[%d]->rep(2))\n" % r.randint(0, 0), "keep(ss->join('')[:5] ~ 'x')\n",
            "ss[0] = ss[-1]\norig[0] = orig[-1]\n", "keep(ss[-1]->rtrim('b'))\n"]))
        out.append("if len ss > 120 { ss = ss[:40]; orig = orig[:40]; }\n")
    out.append("echo ss == orig\necho len ss\nfor let i = 0; i < len ss; i += 1 { if ss[i] != orig[i] { echo 'changed ' ~ i; }; }\necho ss\n")
    return "".join(out).encode()


dcheck.main("C08", "distinct programs of string operations whose every result and operand equals the reference model's",
            {"operations": (3000, 100000, ops), "edges": (3500, 120000, edges), "relations": (1500, 50000, relations), "numeric": (1200, 40000, numeric),
             "byte classes": (150, 2000, classes), "shared pieces": (1200, 40000, pieces), "sessions of edges": (1200, 40000, sessions.tolerant(edges)), "large": (800, 20000, big.strings)})
