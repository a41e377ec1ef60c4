"""Reference model of the built-in methods and the standard library (io and require excepted)."""
import sys
sys.set_int_max_str_digits(0)
import math, re
from .yaslref import (YList, YTable, YSet, Closure, Builtin, YErr, Unspec, TYPE, VAL, IMIN, IMAX, wrap, tkey, rawget,
                      isequal, isnum, f64, fmt_float, falsey, _cm, kind)

WS = b" \t\n\v\r"
UPPER = bytes(c - 32 if 97 <= c <= 122 else c for c in range(256))
LOWER = bytes(c + 32 if 65 <= c <= 90 else c for c in range(256))


def need(v, *types):
    if type(v) not in types:
        raise YErr(TYPE)


def bad(cond):
    if cond:
        raise YErr(VAL)


def i64_from_float(x):
    if x != x or not -9223372036854775808.0 <= x < 9223372036854775808.0:
        return IMIN
    return int(x)


# ---- strings

def strtoll(b):
    """Whole-string integer, or None (no leading blanks considered)."""
    if re.match(rb"-?0[xXbB](?:[ \t-\r+-]|0[xXbB])", b):
        raise Unspec("number after a prefix")
    m = re.fullmatch(rb"(-?)(0[xX]([0-9a-fA-F]+)|0[bB]([01]+)|([0-9]+))", b)
    if not m:
        return None
    n = int(m.group(3), 16) if m.group(3) else int(m.group(4), 2) if m.group(4) else int(m.group(5))
    if m.group(1):
        n = -n
    return max(IMIN, min(IMAX, n))


def drop_us(s):
    return bytes(c for i, c in enumerate(s) if not (c == 95 and i > 0 and s[i - 1] != 46))


def str_toint(s):
    if s[:1] in (b" ", b"_", b"+", b"\t", b"\n", b"\v", b"\f", b"\r") or b"\0" in s or s[:1] == b"-" and s[1:2] in (b"0", b"_") and len(s) > 2:
        raise Unspec("toint")
    if len(s) > 2:
        s = drop_us(s)
    n = strtoll(s)
    return 0 if n is None else n


def str_tofloat(s):
    if b"\0" in s:
        raise Unspec("tofloat")
    b = s[1:] if s[:1] in (b"+", b"-") else s
    if not b or not (b[:1].isdigit() or b[:1] == b"i"):
        return math.nan
    s = drop_us(s)
    if s in (b"inf", b"+inf"):
        return math.inf
    if s == b"-inf":
        return -math.inf
    if re.fullmatch(rb"[+-]?[0-9]+\.[0-9]+([eE][+-]?[0-9]+)?", s):
        return float(s)
    if s[:1] == b"+" or re.match(rb"-0[xXbB]", s):
        raise Unspec("tofloat")
    n = strtoll(s)
    if n is None:
        if re.fullmatch(rb"[+-]?[0-9.]+", s) or not s[-1:].isdigit():
            return math.nan
        raise Unspec("tofloat")
    return f64(n)


def s_replace(I, s, a, b, mx):
    if mx is not None:
        need(mx, int)
    need(b, bytes); need(a, bytes); need(s, bytes)
    bad(not a)
    if mx is None:
        r = s.replace(a, b)
    else:
        r = s.replace(a, b, max(mx, 0)) if mx > 0 else s
    if len(r) > 1 << 20:
        raise Unspec("size")
    return [r]


def s_split(I, s, a):
    if a is None:
        need(s, bytes)
        return [I.list([x for x in re.split(rb"[ \t\n\v\r]+", s) if x])]
    need(a, bytes); need(s, bytes)
    bad(not a)
    return [I.list(s.split(a))]


def ltrim(s, a):
    if a:
        while s.startswith(a):
            s = s[len(a):]
    return s


def rtrim(s, a):
    if a:
        while s.endswith(a):
            s = s[:len(s) - len(a)]
    return s


def mk_trim(l, r):
    def f(I, s, a):
        if a is None:
            need(s, bytes)
            if l:
                s = s.lstrip(WS)
            if r:
                s = s.rstrip(WS)
            return [s]
        need(a, bytes); need(s, bytes)
        if l:
            s = ltrim(s, a)
        if r:
            s = rtrim(s, a)
        return [s]
    return f


def s_rep(I, s, n):
    need(n, int); need(s, bytes)
    bad(n < 0)
    if len(s) * n > 1 << 20:
        if len(s) * n > 1 << 62:
            raise YErr(VAL)
        raise Unspec("size")
    return [s * n]


def s_get(I, s, i):
    need(s, bytes); need(i, int)
    bad(not -len(s) <= i < len(s))
    return [s[i:i + 1] if i != -1 else s[-1:]]


def s_search(I, s, a):
    need(a, bytes); need(s, bytes)
    i = s.find(a)
    return [None if i < 0 else i]


def s_count(I, s, a):
    need(a, bytes); need(s, bytes)
    bad(not a)
    return [s.count(a)]


def allof(cls):
    ok = frozenset(cls)

    def f(I, s):
        need(s, bytes)
        return [all(c in ok for c in s)]
    return f


def s1(g):
    def f(I, s):
        need(s, bytes)
        return [g(s)]
    return f


def s2(g):
    def f(I, s, a):
        need(s, bytes); need(a, bytes)
        return [g(s, a)]
    return f


# ---- lists and tables

def show(I, v, anc=()):
    """The text of a list or table, through the built-in conversion."""
    L = I.opline
    I.tick()
    anc = anc + (v,)

    def el(x):
        if type(x) in (YList, YTable):
            if any(x is a for a in anc):
                return b"[...]" if type(x) is YList else b"{...}"
            if len(anc) > 40:
                raise Unspec("depth")
            return show(I, x, anc)
        return I.tostr(x, L)
    if type(v) is YList:
        out = []
        i = 0
        while i < len(v.v):
            out.append(el(v.v[i]))
            i += 1
        r = b"[" + b", ".join(out) + b"]"
    else:
        es = I.order(v.d)
        out = []
        for k, x in es:
            out.append(I.tostr(k, L) + b": " + el(x))
        r = b"{" + b", ".join(out) + b"}"
    if len(r) > 1 << 18:
        raise Unspec("size")
    return r


def l_show(I, v):
    need(v, YList)
    return [show(I, v)]


def t_show(I, v):
    need(v, YTable)
    return [show(I, v)]


def l_push(I, l, v):
    need(l, YList)
    l.v.append(v)
    return [l]


def l_copy(I, l):
    need(l, YList)
    return [I.list(list(l.v))]


def l_add(I, a, b):
    need(b, YList); need(a, YList)
    if len(a.v) + len(b.v) > 1 << 16:
        raise Unspec("size")
    return [I.list(a.v + b.v)]


def truth(I, v):
    if type(v) is not bool:
        raise Unspec("__eq result")
    return v


def l_eq(I, a, b):
    L = I.opline
    need(b, YList); need(a, YList)
    if len(a.v) != len(b.v):
        return [False]
    i = 0
    while i < len(a.v) and i < len(b.v):
        I.tick()
        if not truth(I, I.eq(a.v[i], b.v[i], L)):
            return [False]
        i += 1
    return [len(a.v) == len(b.v)]


def l_pop(I, l):
    need(l, YList)
    bad(not l.v)
    return [l.v.pop()]


def l_get(I, l, i):
    need(i, int); need(l, YList)
    bad(not -len(l.v) <= i < len(l.v))
    return [l.v[i]]


def l_set(I, l, i, v):
    need(i, int); need(l, YList)
    bad(not -len(l.v) <= i < len(l.v))
    l.v[i] = v
    return [l]


def l_search(I, l, v):
    need(l, YList)
    r = None
    for i, x in enumerate(l.v):
        if isequal(x, v):
            r = i
        elif type(x) is type(v) and type(x) in (YList, YTable, YSet, Closure, Builtin):
            raise Unspec("search by identity")
    return [r]


def l_count(I, l, v):
    need(l, YList)
    if type(v) in (YList, YTable, YSet, Closure, Builtin):
        raise Unspec("count by identity")
    return [sum(1 for x in l.v if isequal(x, v))]


def l_reverse(I, l):
    need(l, YList)
    l.v.reverse()
    return []


def l_clear(I, l):
    need(l, YList)
    l.v[:] = []
    return []


def l_join(I, l, s):
    L = I.opline
    need(s, bytes); need(l, YList)
    out = []
    i = 0
    while i < len(l.v):
        I.tick()
        out.append(I.tostr(l.v[i], L))
        i += 1
    r = s.join(out)
    if len(r) > 1 << 18:
        raise Unspec("size")
    return [r]


def l_sort(I, l):
    need(l, YList)
    v = l.v
    if not v:
        return []
    if all(type(x) is bytes for x in v):
        v.sort()
        return []
    bad(not all(isnum(x) for x in v))
    nan = [x for x in v if x != x]
    r = sorted([x for x in v if x == x])       # Python compares int with float exactly
    for a, b in zip(r, r[1:]):
        if f64(a) == f64(b) and (type(a) is not type(b) or type(a) is float and a == 0.0):
            if fmt(a) != fmt(b):
                raise Unspec("sort")
    l.v[:] = r + nan
    return []


def fmt(a):
    return b"%d" % a if type(a) is int else fmt_float(a)


def l_spread(I, l):
    need(l, YList)
    if len(l.v) > 200:
        raise Unspec("size")
    return list(l.v)


def l_insert(I, l, i, v):
    need(i, int); need(l, YList)
    n = len(l.v)
    if i == n:
        l.v.append(v)
        return [l]
    bad(not -n <= i < n)
    l.v.insert(i if i >= 0 else i + n, v)
    return [l]


def t_get(I, t, k):
    need(t, YTable)
    return [rawget(t, k)[1]]


def t_set(I, t, k, v):
    need(t, YTable)
    if v is None:
        t.d.pop(tkey(k), None)
        return [t]
    I.tset(t, k, v)
    return [t]


def t_bor(I, a, b):
    need(b, YTable); need(a, YTable)
    t = I.table()
    t.d.update(a.d)
    t.d.update(b.d)
    return [t]


def t_eq(I, a, b):
    L = I.opline
    need(b, YTable); need(a, YTable)
    if len(a.d) != len(b.d):
        return [False]
    for k, v in I.order(a.d):
        I.tick()
        e = b.d.get(tkey(k))
        if e is None or not truth(I, I.eq(v, e[1], L)):
            return [False]
    return [True]


def t_remove(I, t, k):
    need(t, YTable)
    t.d.pop(tkey(k), None)
    return [t]


def t_keys(I, t):
    need(t, YTable)
    return [I.list([k for k, v in I.order(t.d)])]


def t_values(I, t):
    need(t, YTable)
    return [I.list([v for k, v in I.order(t.d)])]


def t_copy(I, t):
    need(t, YTable)
    r = I.table()
    r.d.update(t.d)
    return [r]


def t_clear(I, t):
    need(t, YTable)
    t.d.clear()
    return []


# ---- sets

def newset(I, d):
    s = YSet(I.mts["set"])
    s.d = d
    return s


def set_add(I, d, v):
    if v is None or tkey(v) is None:
        raise YErr(TYPE)
    d.setdefault(tkey(v), (v, None))


def c_set(I, args):
    d = {}
    if len(args) == 1 and type(args[0]) is YList:
        for x in args[0].v:
            set_add(I, d, x)
    else:
        for x in reversed(args):
            set_add(I, d, x)
    return [newset(I, d)]


def setop(g):
    def f(I, a, b):
        need(b, YSet); need(a, YSet)
        return [g(I, a.d, b.d)]
    return f


def x_and(I, a, b): return newset(I, {k: v for k, v in a.items() if k in b})
def x_or(I, a, b): return newset(I, {**b, **a})
def x_xor(I, a, b): return newset(I, {**{k: v for k, v in a.items() if k not in b}, **{k: v for k, v in b.items() if k not in a}})
def x_not(I, a, b): return newset(I, {k: v for k, v in a.items() if k not in b})


def x_show(I, s):
    L = I.opline
    need(s, YSet)
    return [b"set(" + b", ".join([I.tostr(v, L) for v, _ in I.order(s.d)]) + b")"]


def x_add(I, s, v):
    need(s, YSet)
    set_add(I, s.d, v)
    return [s]


def x_remove(I, s, v):
    need(s, YSet)
    s.d.pop(tkey(v), None)
    return [v]


def x_clear(I, s):
    need(s, YSet)
    s.d.clear()
    return [s]


def x_get(I, s, v):
    need(s, YSet)
    return [tkey(v) in s.d]


def x_copy(I, s):
    need(s, YSet)
    return [newset(I, dict(s.d))]


def x_tolist(I, s):
    need(s, YSet)
    return [I.list([v for v, _ in I.order(s.d)])]


def x_len(I, s):
    need(s, YSet)
    return [len(s.d)]


def c_list(I, args):
    return [I.list(list(args))]


def c_table(I, args):
    if len(args) % 2:
        args = args + [None]
    t = I.table()
    for i in range(len(args) - 2, -1, -2):
        if args[i + 1] is not None:
            I.tset(t, args[i], args[i + 1])
    return [t]


# ---- mt

def m_get(I, v):
    return [I.getmt(v)]


def m_set(I, v, t):
    need(t, YTable)
    need(v, YList, YTable, YSet)
    v.mt = t
    return [v]


# ---- math

def num(v):
    need(v, int, float)
    return f64(v)


def a_abs(I, v):
    need(v, int, float)
    return [wrap(abs(v)) if type(v) is int else abs(v)]


def libm(name):
    g = _cm(name)
    return lambda I, v: [g(num(v))]


def extremum(mx):
    def f(I, args):
        best = -math.inf if mx else math.inf
        nan = False

        def lt(a, b):
            return a < b if type(a) is int and type(b) is int else f64(a) < f64(b)
        for x in reversed(args):
            need(x, int, float)
            nan = nan or x != x
            if (not lt(x, best)) if mx else (not lt(best, x)):
                best = x
        return [math.nan if nan else best]
    return f


def toi(v):
    need(v, int, float)
    return v if type(v) is int else i64_from_float(v)


def miller_rabin(n):
    small = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)
    for p in small:
        if n % p == 0:
            return n == p
    d, k = n - 1, 0
    while d % 2 == 0:
        d, k = d // 2, k + 1
    for a in small:                # decides every n < 3.3e24
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(k - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def a_isprime(I, v):
    n = toi(v)
    if n < 2:
        return [False]
    if n > 1 << 40:
        return [miller_rabin(n)]
    for p in range(2, 4):
        if n % p == 0:
            return [n == p]
    i, lim = 5, math.isqrt(n)
    while i <= lim:
        if n % i == 0 or n % (i + 2) == 0:
            return [False]
        i += 6
    return [True]


def a_gcd(I, a, b):
    b = toi(b)
    a = toi(a)
    return [math.gcd(a, b) if a > 0 and b > 0 else None]


def a_lcm(I, a, b):
    b = toi(b)
    a = toi(a)
    return [wrap(b // math.gcd(a, b) * a) if a > 0 and b > 0 else None]


def a_rand(I, v):
    raise Unspec("rand")


def unavailable(I, *a):
    raise Unspec("library function")


def ty(t, g):
    def f(I, v):
        need(v, t)
        return [g(v)]
    return f


ALPHA = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGIT = b"0123456789"
PI = 3.14159265358979323851280895940618620443274267017841339111328125


def f_undef(g):
    def f(I, v):
        if v is not None:
            raise YErr(TYPE)
        return [g]
    return f


METHODS = {
    "undef": {b"tostr": (1, f_undef(b"undef")), b"tobool": (1, f_undef(False))},
    "int": {b"toint": (1, ty(int, lambda v: v)), b"tobool": (1, ty(int, lambda v: True)),
            b"tofloat": (1, ty(int, f64)), b"tostr": (1, ty(int, lambda v: b"%d" % v))},
    "float": {b"toint": (1, ty(float, i64_from_float)), b"tobool": (1, ty(float, lambda v: v == v)),
              b"tofloat": (1, ty(float, lambda v: v)), b"tostr": (1, ty(float, fmt_float))},
    "bool": {b"tostr": (1, ty(bool, lambda v: b"true" if v else b"false")), b"tobool": (1, ty(bool, lambda v: v))},
    "str": {
        b"__len": (1, s1(len)), b"tofloat": (1, s1(str_tofloat)), b"toint": (1, s1(str_toint)),
        b"isalnum": (1, allof(ALPHA + DIGIT)), b"isal": (1, allof(ALPHA)), b"isnum": (1, allof(DIGIT)),
        b"isspace": (1, allof(WS)), b"tobool": (1, s1(lambda s: s != b"")), b"tostr": (1, s1(lambda s: s)),
        b"toupper": (1, s1(lambda s: s.translate(UPPER))), b"tolower": (1, s1(lambda s: s.translate(LOWER))),
        b"startswith": (2, s2(bytes.startswith)), b"endswith": (2, s2(bytes.endswith)),
        b"replace": (4, s_replace), b"search": (2, s_search), b"count": (2, s_count), b"split": (2, s_split),
        b"ltrim": (2, mk_trim(1, 0)), b"rtrim": (2, mk_trim(0, 1)), b"trim": (2, mk_trim(1, 1)),
        b"__get": (2, s_get), b"rep": (2, s_rep)},
    "list": {
        b"__len": (1, lambda I, l: (need(l, YList), [len(l.v)])[1]), b"push": (2, l_push), b"copy": (1, l_copy),
        b"__add": (2, l_add), b"__eq": (2, l_eq), b"pop": (1, l_pop), b"__get": (2, l_get), b"__set": (3, l_set),
        b"tostr": (1, l_show), b"search": (2, l_search), b"reverse": (1, l_reverse), b"clear": (1, l_clear),
        b"join": (2, l_join), b"sort": (1, l_sort), b"spread": (1, l_spread), b"count": (2, l_count),
        b"insert": (3, l_insert)},
    "table": {
        b"__len": (1, lambda I, t: (need(t, YTable), [len(t.d)])[1]), b"remove": (2, t_remove), b"keys": (1, t_keys),
        b"values": (1, t_values), b"copy": (1, t_copy), b"tostr": (1, t_show), b"__get": (2, t_get),
        b"__set": (3, t_set), b"__bor": (2, t_bor), b"__eq": (2, t_eq), b"clear": (1, t_clear)},
    "set": {
        b"tostr": (1, x_show), b"tolist": (1, x_tolist), b"__band": (2, setop(x_and)), b"__bor": (2, setop(x_or)),
        b"__bxor": (2, setop(x_xor)), b"__bandnot": (2, setop(x_not)), b"__len": (1, x_len),
        b"__eq": (2, setop(lambda I, a, b: a.keys() == b.keys())),
        b"__gt": (2, setop(lambda I, a, b: a.keys() > b.keys())),
        b"__ge": (2, setop(lambda I, a, b: a.keys() >= b.keys())),
        b"__lt": (2, setop(lambda I, a, b: a.keys() < b.keys())),
        b"__le": (2, setop(lambda I, a, b: a.keys() <= b.keys())),
        b"add": (2, x_add), b"remove": (2, x_remove), b"copy": (1, x_copy), b"clear": (1, x_clear),
        b"__get": (2, x_get)},
}
LIBS = {
    b"collections": {b"set": (-1, c_set), b"list": (-1, c_list), b"table": (-1, c_table)},
    b"mt": {b"get": (1, m_get), b"set": (2, m_set)},
    b"math": {b"abs": (1, a_abs), b"max": (-1, extremum(True)), b"min": (-1, extremum(False)),
              b"deg": (1, lambda I, v: [num(v) * (180.0 / PI)]), b"rad": (1, lambda I, v: [num(v) * (PI / 180.0)]),
              b"isprime": (1, a_isprime), b"gcd": (2, a_gcd), b"lcm": (2, a_lcm), b"rand": (1, a_rand),
              b"pi": PI, b"nan": math.nan, b"inf": math.inf,
              **{n.encode(): (1, libm(n)) for n in "exp log sqrt sin cos tan asin acos atan ceil floor".split()}},
    b"io": {b"open": (2, unavailable), b"stdin": unavailable, b"stdout": unavailable, b"stderr": unavailable},
}
BUILTINS = {}


def install(I):
    if not BUILTINS:
        for t, ms in METHODS.items():
            BUILTINS[t] = {k: Builtin(k, n, f) for k, (n, f) in ms.items()}
    for t in METHODS:
        m = I.mts[t] = YTable(None)
        for k, b in BUILTINS[t].items():
            m.d[tkey(k)] = (k, b)
    I.mts["set"].mt = I.mts["table"]    # unlike those of the built-in types, made as an ordinary table
    # the tables given to the methods are ordinary tables without a metatable of their own
    for lib, ms in LIBS.items():
        m = YTable(I.mts["table"])
        for k, v in ms.items():
            if type(v) is tuple:
                v = Builtin(k, v[0], v[1])
            elif callable(v):
                v = Builtin(k, -1, v)
            m.d[tkey(k)] = (k, v)
        I.globals[lib] = m
    I.globals[b"require"] = Builtin(b"require", 1, unavailable)
    I.globals[b"__require_c__"] = Builtin(b"__require_c__", 1, unavailable)
