"""C13: values print exactly and numbers survive text round trips."""
import struct
from lib import dcheck, vals


def rint(r):
    w = r.random()
    if w < 0.3:
        return r.choice([0, 1, 9, 10, 99, 100, 10 ** 18, 10 ** 18 - 1, (1 << 63) - 1, -(1 << 63), (1 << 31), -(1 << 31) - 1, 1 << 53])
    return r.randrange(-(1 << r.randint(1, 63)), 1 << r.randint(1, 63))


def itext(r, n, sep=0.25):
    """A literal of the int n >= 0 in some base, with separators."""
    b = r.choice("ddxXbB" if n < 1 << 20 else "ddxxXb")
    s = {"d": "%d", "x": "%x", "X": "%X"}.get(b)
    t = s % n if s else bin(n)[2:]
    if b == "x" and r.random() < 0.5:
        t = "".join(c.upper() if r.random() < 0.5 else c for c in t)
    if b != "d" and r.random() < 0.15:
        t = "0" * r.randint(1, 3) + t
    if r.random() < sep:
        t = "".join(c + ("_" if i < len(t) - 1 and r.random() < 0.3 else "") for i, c in enumerate(t))
    return {"d": "", "x": "0x", "X": "0X", "b": "0b", "B": "0B"}[b] + t


def lit(r, n):
    if n == -(1 << 63):
        return "(-9223372036854775807 - 1)"
    return "-" + itext(r, -n) if n < 0 else itext(r, n)


def ftext(r):
    w = r.random()
    if w < 0.3:
        return "%d.%s" % (r.randint(0, 10 ** r.randint(1, 17)), "".join(r.choice("0123456789") for _ in range(r.randint(1, 16))))
    if w < 0.5:
        return "%d.%d%s%s%d" % (r.randint(0, 999), r.randint(0, 99999), r.choice("eE"), r.choice(["", "-", "+"]), r.randint(0, 25))
    if w < 0.6:
        return r.choice(["0.0", "1.0", "0.1", "1.5e300", "1.7976931348623157e308", "2.2250738585072014e-308", "5.0e-324", "4.9e-324", "9007199254740993.0", "0.3", "0.30000000000000004",
                         "123456789012345678.0", "1_000.5", "1_0.2_5", "1.0e5", "1.0e15", "1.0e16", "1.0e17", "1.0e21", "1.0e22", "0.00001", "0.000001", "0.0000001"])
    while True:
        x = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
        if x == x and abs(x) < 1e308 and abs(x) > 1e-300:
            break
    s = "%.17e" % abs(x)
    return s


def ints(r):
    out = [vals.SHOW]
    for i in range(8):
        n = rint(r)
        out.append("let n%d = %s\necho n%d\nshow(n%d)\necho (n%d->tostr())->toint() == n%d\necho 'a' ~ n%d ~ 'b'\necho \"#{n%d}#{n%d}\"\necho [n%d]\necho n%d->tofloat()\n" % ((i, lit(r, n)) + (i,) * 9))
        if n >= 0:
            t = itext(r, n)
            out.append("echo '%s'->toint() == n%d\necho '%s'->toint()\n" % (t, i, t if n < 1 << 63 else "1"))
        out.append("echo '%d'->toint() == n%d\n" % (n, i))
    return "".join(out).encode()


def floats(r):
    out = [vals.SHOW]
    for i in range(6):
        t = ftext(r)
        s = r.choice(["", "", "-"])
        out.append("let f%d = %s%s\nshow(f%d)\necho f%d\necho '%s%s'->tofloat() == f%d\necho [f%d, 'x' ~ f%d]\necho f%d->tostr()\necho f%d->toint()\n" % (i, s, t, i, i, s, t, i, i, i, i, i))
        x = rint(r)
        out.append("show(%s->tofloat())\n" % ("(%s)" % lit(r, x)) + "show(%s / %d.0)\n" % (lit(r, x), r.choice([3, 7, 10, 1000, 1 << 40])))
    out.append("echo math.nan\necho math.inf\necho -math.inf\necho [math.nan]\necho math.inf->toint() == math.nan\n" if r.random() < 0.1 else "")
    return "".join(out).encode()


def nested(r):
    """Lists and tables of at most one entry, nested and containing themselves."""
    def t(d):
        w = r.random()
        if d <= 0 or w < 0.3:
            return r.choice(["0", "-7", "1.50", "100.0", "'s'", "''", "'a, b'", "true", "false", "undef", "'\\xff'", "'\\n'", "a", "b", "c", "a", "b"])
        if w < 0.75:
            return "[" + ", ".join(t(d - 1) for _ in range(r.randint(0, 4))) + "]"
        return "{" + ", ".join("%s: %s" % (r.choice(["1", ".k", "2.5", "true", "'x y'", "-3"]), t(d - 1)) for _ in range(r.choice([0, 1, 1]))) + "}"
    out = ["let a = []\nlet b = {}\nlet c = [[]]\n"]
    for _ in range(r.randint(2, 6)):
        out.append(r.choice(["a->push(%s)\n", "b.k = %s\n", "c[0] = %s\n", "c->push(%s)\n", "a = [%s]\n", "b = {.k: %s}\n"]) % t(3))
        if r.random() < 0.5:
            out.append("echo %s\n" % r.choice("abc"))
    out.append("echo a\necho b\necho c\necho [a, b]\necho 'l' ~ a ~ b\necho \"#{c}\"\necho a->tostr() == '' ~ a\necho len c->tostr()\necho [a]->join('')\necho %s\n" % t(4))
    return "".join(out).encode()


ESC = {7: "\\a", 8: "\\b", 12: "\\f", 10: "\\n", 13: "\\r", 9: "\\t", 11: "\\v", 0: "\\0", 39: "\\'", 34: "\\\"", 92: "\\\\", 35: "\\#"}


def spell(r, b):
    """A literal of the bytes b, single-quoted, interpolated or raw."""
    q = r.choice("''\"\"`")
    if q == "`":
        if any(c in b for c in (0, 96, 92)):
            q = "'"
        else:
            return b"`" + b + b"`"
    out = b""
    for i, c in enumerate(b):
        w = r.random()
        if c in ESC and (w < 0.7 or c in (10, 92, 0, ord(q)) or c == 35 and q == '"'):
            out += ESC[c].encode()
        elif w < 0.15 or c == 0 or c == ord(q) or c == 92 or c == 10 or c == 13:
            out += (r.choice(["\\x%02x", "\\x%02X"]) % c).encode()
        else:
            out += bytes([c])
    return q.encode() + out + q.encode()


def strings(r):
    out = [vals.SHOW.encode()]
    for i in range(6):
        b = bytes(r.choice(range(256)) if r.random() < 0.5 else r.choice(b"abc #{}'\"`\\\n\t0x41") for _ in range(r.choice([0, 1, 2, 5, 12, 30])))
        s1, s2 = spell(r, b), spell(r, b)
        out.append(b"let s%d = %s\nshow(s%d)\necho s%d == %s\necho s%d\necho [s%d]\necho s%d ~ s%d\necho \"<#{s%d}>\"\nfor c <- s%d { echo c == '\\x00'; echo c; }\n" % (i, s1, i, i, s2, i, i, i, i, i, i))
    if r.random() < 0.15:
        n = r.choice([1000, 2047, 2048, 4000, 4094, 4095, 4096, 4097, 5000, 8192, 9000])
        b = bytearray(r.choice(b"abcdefgh \n%") for _ in range(n))
        for _ in range(r.choice([0, 1, 1, 2, 20, n // 2])):
            b[r.randrange(n)] = 0
        if r.random() < 0.3:
            b[r.choice([0, n - 1])] = 0
        e = b"".join(b"\\0" if x == 0 else b"\\n" if x == 10 else bytes([x]) for x in b)
        out.append(b"let big = '%s'\necho len big\necho big\necho big ~ '|'\necho [big]\necho big[%d:]\n" % (e, r.randrange(n)))
    return b"".join(out)


def interp(r):
    """Interpolated strings against concatenation."""
    def e(d):
        w = r.random()
        if w < 0.4 or d <= 0:
            return r.choice(["x", "y", "1 + 2", "'q'", "[x, y]", "x ~ y", "y[0]", "{.k: x}.k", "f(x)", "undef", "1.0", "true ? x : y", "(x)", "'}'", "\"a\"", "`b`", "len y", "-x"])
        return s(d - 1)

    def s(d):
        return '"' + "".join(r.choice(["a", "b" if r.random() < 0.98 else "#", "{", "}", "\\#{", "\\t", "'", " "]) if r.random() < 0.5 else "#{" + r.choice(["", " "]) + e(d) + r.choice(["", " "]) + "}" for _ in range(r.randint(0, 5))) + '"'
    out = ["let x = 5\nlet y = 'yy'\nfn f(v) {\n return v * 2\n}\n"]
    for _ in range(6):
        out.append("echo %s\n" % s(3))
    t = s(2)
    out.append("echo %s == %s\nlet z = %s\necho len z\n" % (t, t, t))
    return "".join(out).encode()


def tobool(r):
    out = [vals.SHOW]
    for i in range(6):
        t = r.choice(["int", "float", "bool", "str", "undef"])
        v = vals.val(r, t)
        ms = {"int": "tobool tofloat tostr toint", "float": "tobool tofloat tostr toint", "bool": "tobool tostr", "str": "tobool tostr", "undef": "tobool tostr"}[t].split()
        out.append("let v%d = %s\n" % (i, v) + "".join("show(v%d->%s())\n" % (i, m) for m in ms) + "echo !v%d\necho v%d ? 1 : 0\nshow('' ~ v%d)\n" % (i, i, i))
    if r.random() < 0.3:
        out.append("show(%s->%s(%s))\n" % (vals.val(r), r.choice(["tostr", "tobool", "toint", "tofloat"]), r.choice(["", "1"])))
    return "".join(out).encode("latin-1")


def texts(r):
    """Texts to numbers and back."""
    out = [vals.SHOW]
    for i in range(6):
        out.append("let t%d = %s\nlet a%d = t%d->%s()\nshow(a%d)\nshow(t%d->%s() ?? t%d)\nshow(a%d->tostr())\n" % (i, vals.slit(vals.judgedtext(r, 0.5).encode("latin-1")), i, i, r.choice(["toint", "tofloat"]), i, i, r.choice(["toint", "tofloat", "tobool", "tostr"]), i, i))
    return "".join(out).encode()


dcheck.main("C13", "distinct programs printing and converting values whose output equals the reference model's",
            {"ints": (1500, 50000, ints), "floats": (1800, 60000, floats), "nested": (1500, 40000, nested), "texts": (1200, 30000, texts), "strings": (1800, 50000, strings), "interpolation": (1000, 30000, interp),
             "conversions": (800, 20000, tobool)})
