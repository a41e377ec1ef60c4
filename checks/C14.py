"""C14: math library functions return the mathematical result for every argument."""
import struct
from lib import dcheck, sessions, vals, work

UN = ["abs", "exp", "log", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "ceil", "floor", "deg", "rad"]
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 197, 199, 211, 223, 227, 251, 257, 65537, 39601, 40000, 44521, 46337 * 46337, 46349 * 46351, 1000003, 1000003 * 1000033,
          2147483647, 2147483629, 4294967291, 4294967311]


def fl(r):
    w = r.random()
    if w < 0.3:
        return r.choice(vals.FLOAT)
    if w < 0.6:
        return "%s%d.%d" % (r.choice(["", "-"]), r.randint(0, 10), r.randint(0, 999999))
    while True:
        x = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
        if x == x and 1e-300 < abs(x) < 1e308:
            return "%.17e" % x


def num(r):
    w = r.random()
    return fl(r) if w < 0.5 else vals.rint(r)


def unary(r):
    out = [vals.SHOW]
    for i in range(10):
        f = r.choice(UN)
        a = num(r)
        if f in ("asin", "acos") and r.random() < 0.6:
            a = "%s0.%d" % (r.choice(["", "-"]), r.randint(0, 999999999))
        if f in ("ceil", "floor") and r.random() < 0.5:
            a = "%s%d.%s" % (r.choice(["", "-"]), r.choice([0, 1, 2, 5, 1 << 20, (1 << 52) - 1]), r.choice(["0", "5", "25", "999999", "000001"]))
        if f == "exp" and r.random() < 0.6:
            a = "%s%d.%d" % (r.choice(["", "-"]), r.randint(0, 745), r.randint(0, 999))
        out.append("show(math.%s(%s))\n" % (f, a))
    return "".join(out).encode()


def extrema(r):
    out = [vals.SHOW]
    for i in range(6):
        k = r.choice([0, 1, 1, 2, 2, 2, 3, 5, 12])
        w = r.random()
        if w < 0.4:
            a = [num(r) for _ in range(k)]
        elif w < 0.7:
            b = r.choice([9007199254740992, 9223372036854775807, 3, -5, 0])
            a = [r.choice([str(b), str(b - 1), str(b) + ".0", str(b - 1) + ".0"]) for _ in range(k)]
        else:
            a = [vals.rint(r) for _ in range(k)]
        out.append("show(math.%s(%s))\n" % (r.choice(["max", "min"]), ", ".join(a)))
    if r.random() < 0.3:
        out.append("show(math.max([3, 1, 2]->spread()))\nshow(math.min(9, [3, 1, 2]->spread()))\n")
    return "".join(out).encode()


def pint(r):
    w = r.random()
    if w < 0.4:
        return r.randint(0, 60)
    if w < 0.6:
        x = 1
        for _ in range(r.randint(1, 12)):
            x *= r.choice([2, 2, 3, 5, 7, 11, 13])
        return x % (1 << 63)
    if w < 0.7:
        return r.choice([(1 << 63) - 1, 1 << 62, (1 << 62) - 57, 1 << 32, 3037000500, 12 ** 17, 6 * 10 ** 17])
    return r.randrange(1 << r.randint(1, 63))


def gcdlcm(r):
    out = [vals.SHOW]
    for i in range(8):
        a, b = pint(r), pint(r)
        if r.random() < 0.3:
            b = a * r.randint(1, 5) % (1 << 63)
        t = [str(a), str(b)]
        for j in range(2):
            w = r.random()
            if w < 0.07:
                t[j] = "-" + t[j]
            elif w < 0.14:
                t[j] = num(r)
            elif w < 0.2:
                t[j] = str((a, b)[j] % 100000) + r.choice([".0", ".75"])
        out.append("show(math.%s(%s))\n" % (r.choice(["gcd", "lcm"]), ", ".join(t)))
    return "".join(out).encode()


def isprime(r):
    out = []
    for i in range(12):
        w = r.random()
        if w < 0.4:
            n = str(r.randint(-3, 2000))
        elif w < 0.6:
            n = str(r.choice(PRIMES))
        elif w < 0.75:
            n = str(r.choice(PRIMES) * r.choice(PRIMES) % (1 << 40))
        elif w < 0.85:
            n = str(r.randrange(1 << r.randint(3, 40)))
        elif w < 0.9:
            n = str(r.randrange(1 << 62) // 2 * 2 * r.choice([1, 1]))
        elif w < 0.95:
            n = "%d.%s" % (r.randint(0, 500), r.choice(["0", "5"]))
        else:
            n = r.choice(["-7", "0", "1", "math.nan", "math.inf", "-math.inf", "1.0e300", "(-9223372036854775807 - 1)", "9223372036854775807"])
        out.append("echo math.isprime(%s)\n" % n)
    out.append("let c = 0\nfor let i = %d; i < %d; i += 1 { if math.isprime(i) { c += i; }; }\necho c\n" % ((lambda a: (a, a + 200))(r.choice([0, 100, 39500, 40000, 1000000, 1 << 31]) + r.randint(-50, 50))))
    return "".join(out).encode(), {"cpu": 10}


def types(r):
    f = r.choice(UN + ["isprime", "gcd", "lcm", "max", "min", "gcd", "max"])
    n = {"gcd": 2, "lcm": 2, "max": 3, "min": 3}.get(f, 1)
    a = [vals.val(r) if r.random() < 0.5 else num(r) for _ in range(n if r.random() < 0.8 else r.randint(0, 4))]
    return (vals.SHOW + "show(math.%s(%s))\nshow(math.pi)\nshow(math.nan)\nshow(math.inf)\n" % (f, ", ".join(a))).encode("latin-1")


def calls(r):
    """Calls of every function with any arguments, failing ones among them."""
    return b"".join(types(r).replace(vals.SHOW.encode(), vals.SHOW.encode() if i == 0 else b"", 1) for i in range(10))


def extra(c):
    """math.rand: ints, all 64 bits of which vary."""
    n = c.n(5, 50)
    for k in range(n):
        src = b"let i = 0\nwhile i < 400 {\n let x = math.rand()\n match x {\n  int { echo x; }\n  * { echo 'other'; }\n }\n i += 1\n}\n"
        if k % 2:
            src = src.replace(b"math.rand()", b"math.rand(5, 'x')")
        global _srv
        r = _srv.prog(src)
        ls = r.out.split()
        c.observe(b"rand%d" % k, True, "400 draws of math.rand()")
        c.count("draws of math.rand", len(ls))
        ok = r.code == 0 and len(ls) == 400 and b"other" not in ls
        if ok:
            xs = [int(l) & ((1 << 64) - 1) for l in ls]
            o, a = 0, (1 << 64) - 1
            for x in xs:
                o, a = o | x, a & x
            ok = o == (1 << 64) - 1 and a == 0 and len(set(xs)) > 390
        if not ok:
            c.violation("rand", "math.rand() does not give varying ints over all 64 bits", src + b"\n# ----\n" + r.out[:2000] + r.err)
    big = [(1 << 61) - 1 if c.thorough else 67280421310721, 3037000493 * 3037000493 if c.thorough else 1000000007 * 1000000007, 1000000007 * 998244353]
    for n, want in zip(big, (b"true\n", b"false\n", b"false\n")):
        src = b"echo math.isprime(%d)\n" % n
        r = _srv.prog(src, cpu=120)
        c.observe(src, True)
        if r.out != want:
            c.violation(src.decode(), "math.isprime(%d) printed %r" % (n, r.out), src)


def setup(c):
    global _srv
    _srv = work.server("plain")
    try:
        extra(c)
    finally:
        _srv.close()
        work._srv.pop("plain", None)


dcheck.main("C14", "distinct calls of math functions whose result, type and error equal the reference model's",
            {"unary": (2500, 80000, unary), "extrema": (1200, 40000, extrema), "gcd and lcm": (1000, 30000, gcdlcm), "isprime": (500, 10000, isprime), "types": (1500, 20000, types), "sessions of calls": (400, 15000, sessions.tolerant(calls))},
            extra=setup)
