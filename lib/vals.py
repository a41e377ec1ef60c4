"""Literal texts of values at and around the boundaries."""
INT = ["0", "1", "2", "3", "7", "10", "31", "32", "62", "63", "64", "65", "127", "128", "255", "256", "-1", "-2", "-3", "-7",
       "-63", "-64", "-128", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "3037000499",
       "3037000500", "-3037000500", "9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740993",
       "4611686018427387904", "-4611686018427387904", "4611686018427387903", "9223372036854775806",
       "9223372036854775807", "-9223372036854775807", "(-9223372036854775807 - 1)", "6148914691236517205"]
FLOAT = ["0.0", "-0.0", "0.5", "-0.5", "1.0", "-1.0", "1.5", "2.0", "3.0", "-7.0", "0.1", "1.0e300", "-1.0e300", "1.0e-300",
         "5.0e-324", "1.7976931348623157e308", "9007199254740992.0", "9007199254740993.0", "4503599627370496.5",
         "9223372036854775808.0", "-9223372036854775808.0", "9223372036854774784.0", "math.nan", "math.inf", "-math.inf", "63.0", "123456789.125"]
BOOL = ["true", "false"]
STR = ["''", "'a'", "'b'", "'ab'", "'abc'", "'aB'", "'\\x00'", "'a\\x00b'", "'\\xff'", "'\\x80'", "'\\x7f'", "'10'", "'9'", "' '", "'\\n'", "'é'", "'a' ~ 'b'", "('xaby'[1:3])", "'zz'->rep(20)"]
LIST = ["[]", "[1]", "[1, 2]", "['a']", "[undef]", "[[]]", "[1.0]", "[true, 'x']", "[[1], [2]]"]
TABLE = ["{}", "{1: 2}", "{.a: 1}", "{1.0: 2}"]
SET = ["collections.set()", "collections.set(1)", "collections.set('a')"]
UNDEF = ["undef"]
POOL = {"int": INT, "float": FLOAT, "bool": BOOL, "str": STR, "list": LIST, "table": TABLE, "set": SET, "undef": UNDEF}
TYPES = sorted(POOL)


def num(r):
    return r.choice(INT if r.random() < 0.6 else FLOAT)


def rint(r):
    w = r.random()
    if w < 0.6:
        return r.choice(INT)
    if w < 0.8:
        return str(r.randrange(-20, 21))
    return str(r.randrange(-(1 << r.randint(1, 63)), 1 << r.randint(1, 63)))


def rfloat(r):
    w = r.random()
    if w < 0.6:
        return r.choice(FLOAT)
    return "%s%d.%de%d" % (r.choice(["", "-"]), r.randrange(1000), r.randrange(100000), r.randint(-30, 30))


def rstr(r, n=6, alpha="abAB01 ,\\"):
    """A string literal (text)."""
    if r.random() < 0.4:
        return r.choice(STR)
    out = []
    for _ in range(r.randint(0, n)):
        c = r.choice(alpha)
        out.append("\\x%02x" % r.randrange(256) if c == "\\" else c)
    return "'" + "".join(out) + "'"


def val(r, t=None):
    t = t or r.choice(TYPES)
    return {"int": rint, "float": rfloat, "str": rstr}.get(t, lambda r: r.choice(POOL[t]))(r)


def slit(b):
    """A string literal of the bytes."""
    return "'" + "".join(chr(c) if chr(c).isalnum() and c < 128 or c == 32 else "\\x%02x" % c for c in b) + "'"


def nearstr(r, a):
    """Bytes close to a: a byte changed, added or removed, or the same."""
    a = bytearray(a)
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        i = r.randint(0, len(a))
        w = r.random()
        if w < 0.4 and i < len(a):
            a[i] = r.choice([0, a[i] ^ 128, a[i] ^ 32, (a[i] + 1) & 255, (a[i] - 1) & 255, 255])
        elif w < 0.6:
            a.insert(i, r.choice([0, 97, 255, 128]))
        elif w < 0.75 and i < len(a):
            del a[i]
        elif w < 0.85:
            a = a[:i]
        else:
            a += bytes(r.choice([0, 97, 98, 255]) for _ in range(r.randint(1, 3)))
    return bytes(a)


def flit(x):
    if x != x:
        return "math.nan"
    if x in (float("inf"), -float("inf")):
        return "-math.inf" if x < 0 else "math.inf"
    t = repr(x)
    if "e" in t:
        m, e = t.split("e")
        return "%s%se%d" % (m, "" if "." in m else ".0", int(e))
    return t


def near(r):
    """Two literals that are equal or nearly so: strings, ints, floats, an int and a float."""
    w = r.random()
    if w < 0.4:
        a = bytes(r.choice([0, 0, 97, 98, 65, 255, 128, 32, 48]) for _ in range(r.choice([0, 1, 2, 3, 3, 5, 8, 9, 16, 40])))
        b = nearstr(r, a)
        x, y = slit(a), slit(b)
        if r.random() < 0.3:
            x = "('z' ~ %s ~ 'q')[1:%d]" % (x, 1 + len(a))
        if r.random() < 0.3:
            y = "(%s ~ %s)" % (slit(b[:len(b) // 2]), slit(b[len(b) // 2:]))
        return x, y
    n = r.choice([0, 1, 2, 3, 255, 1 << 31, 1 << 32, 1 << 52, (1 << 53) - 1, 1 << 53, 1 << 54, 1 << 60, 1 << 62, (1 << 63) - 1, r.randrange(1 << 63), r.randrange(1 << r.randint(1, 63))])
    n = max(-(1 << 63), min((1 << 63) - 1, r.choice([-1, 1]) * n + r.choice([-2, -1, 0, 0, 1, 2])))

    def ilit(v):
        v = max(-(1 << 63), min((1 << 63) - 1, v))
        return "(-9223372036854775807 - 1)" if v == -(1 << 63) else str(v)
    x = ilit(n)
    if w < 0.55:
        return x, ilit(n + r.choice([0, 1, -1, -2 * n, 1 << 32, 1 << 53]))
    import math
    f = float(n)
    f = r.choice([f, f, f, math.nextafter(f, math.inf), math.nextafter(f, -math.inf), f + 0.5, -f, float("nan")])
    if w < 0.8:
        return (x, flit(f)) if r.random() < 0.5 else (flit(f), x)
    g = r.choice([f, math.nextafter(f, math.inf), math.nextafter(f, -math.inf), -f, f + 0.0])
    return flit(f), flit(g)


def numtext(r, odd=0.15):
    w = r.random()
    if r.random() < odd:
        return r.choice(["", "", "", "+", "-", " ", "+-", "--"]) + r.choice(["inf", "inf", "inf", "nan", "nan", "5", "1.5", "Inf", "NAN", "infinity", "0", "5", "1.5", "0x10", "0X1F", "0b11", "0B10", "1e5", "1.0e5", ".5", "5.", "0x", "0b", "1__2", "_1", "1_", "",
                         "0.0", "1.0e400", "1.5e-400", "1.5e", "1.5e+", "1.5e5_0", "1_0.5", "1.5_5", "0x_1", "0b_1", "0x1.8", "0x1p3", "00012", "1\0", "\0", "9" * 25, "1" * 40 + ".5", "0." + "0" * 30 + "1"]) + r.choice(["", "", "", "", " ", "x", "\n"])
    if w < 0.3:
        return r.choice(["", "-"]) + str(r.choice([r.randint(0, 99), r.randrange(1 << 64), 9223372036854775807, 9223372036854775808, 9223372036854775809]))
    if w < 0.45:
        return r.choice(["0x", "0X"]) + "".join(r.choice("0123456789abcdefABCDEF_" if i else "0123456789abcdefABCDEF") for i in range(r.randint(1, 17)))
    if w < 0.55:
        return r.choice(["0b", "0B"]) + "".join(r.choice("01_") if i else r.choice("01") for i in range(r.randint(1, 66)))
    if w < 0.7:
        return r.choice(["", "-"]) + "%d.%s%s" % (r.randint(0, 9999), "".join(r.choice("0123456789") for _ in range(r.randint(1, 12))), r.choice(["", "", "e%d" % r.randint(-40, 40), "E+5"]))
    if w < 0.8:
        return "".join(r.choice("0123456789_") if i else r.choice("123456789") for i in range(r.randint(1, 12)))
    return "".join(r.choice("0123456789_.xXbBeE-+afin ") for _ in range(r.randint(0, 6)))



def judgedtext(r, odd=0.15):
    """A number text whose conversions the reference defines, mostly."""
    from . import yasllib, yaslref
    while True:
        t = numtext(r, odd)
        try:
            yasllib.str_toint(t.encode("latin-1"))
            yasllib.str_tofloat(t.encode("latin-1"))
            return t
        except yaslref.Unspec:
            if r.random() < 0.02:
                return t


# prints the type and the exact value of its argument
SHOW = """fn show(x) {
    match x {
        float {
            let y = x
            let k = 0
            if y == y && y != 0.0 && y != math.inf && y != -math.inf {
                while y < 4503599627370496.0 && y > -4503599627370496.0 {
                    y = y * 1048576.0
                    k += 1
                }
            }
            if y == 0.0 {
                echo 'float zero ' ~ 1.0 / y
            } else {
                echo 'float ' ~ y ~ ' ' ~ k
            }
        }
        int { echo 'int ' ~ x; }
        bool { echo 'bool ' ~ x; }
        undef { echo 'undef'; }
        str { echo 'str ' ~ len x ~ ' ' ~ x; }
        list { echo 'list ' ~ len x ~ ' ' ~ x; }
        table { echo 'table ' ~ len x ~ ' ' ~ x; }
        * { echo 'other ' ~ x; }
    }
}
"""
