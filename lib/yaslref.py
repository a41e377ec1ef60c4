"""Reference model of the language: an independent tree interpreter used as the oracle.

run(src) -> Outcome, or raises Unspec when the program's result is not determined by the language
(hash order, printed addresses, ...) or exceeds the step budget.
"""
import ctypes, math, struct, zlib
from .yaslparse import parse, Reject, Node, expands

_libm = ctypes.CDLL("libm.so.6")


def _cm(name, n=1):
    f = getattr(_libm, name)
    f.restype = ctypes.c_double
    f.argtypes = [ctypes.c_double] * n
    return f


c_pow = _cm("pow", 2)
IMIN, IMAX = -(1 << 63), (1 << 63) - 1
M64 = (1 << 64) - 1

TYPE, DIV, VAL, ASSERT, STACK, GENERIC = 5, 6, 7, 10, 11, 2
PREFIX = {TYPE: b"TypeError", DIV: b"DivisionByZeroError", VAL: b"ValueError", ASSERT: b"AssertError",
          STACK: b"StackOverflow"}


class Unspec(Exception):
    """What the program does is not determined by the language."""


class Export(Exception):
    """The end of a module."""

    def __init__(self, value):
        self.value = value


class YErr(Exception):
    def __init__(self, code, line=None, msg=None):
        self.code, self.line, self.trace, self.msg, self.passed = code, line, [], msg, False


def wrap(n):
    if IMIN <= n <= IMAX:
        return n
    n &= M64
    return n - (1 << 64) if n >> 63 else n


MADE = None     # with a list here, every container and closure made is appended to it


class YList:
    __slots__ = ("v", "mt")

    def __init__(self, v, mt):
        self.v, self.mt = v, mt
        if MADE is not None:
            MADE.append(self)


class YTable:
    __slots__ = ("d", "mt", "iters")

    def __init__(self, mt):
        self.d, self.mt = {}, mt       # typed key -> (key, value)
        if MADE is not None:
            MADE.append(self)


class YSet:
    __slots__ = ("d", "mt")

    def __init__(self, mt):
        self.d, self.mt = {}, mt


class Closure:
    __slots__ = ("fn", "up")

    def __init__(self, fn, up):
        self.fn, self.up = fn, up
        if MADE is not None:
            MADE.append(self)


def refs(x):
    t = type(x)
    if t is YList:
        return x.v + [x.mt]
    if t is YTable:
        return [e[1] for e in x.d.values()] + [x.mt]
    if t is YSet:
        return [x.mt]
    if t is Closure:
        return x.up
    if t is list:       # the cell of a captured variable
        return x
    return ()


def cyclic(objs):
    """Whether any of objs reaches itself."""
    state = {}
    for o in objs:
        if id(o) in state:
            continue
        state[id(o)] = 1
        todo = [(o, iter(refs(o)))]
        while todo:
            x, it = todo[-1]
            for y in it:
                if type(y) not in (YList, YTable, YSet, Closure, list):
                    continue
                k = state.get(id(y))
                if k == 1:
                    return True
                if k is None:
                    state[id(y)] = 1
                    todo.append((y, iter(refs(y))))
                    break
            else:
                state[id(x)] = 2
                todo.pop()
    return False


class Fn:
    __slots__ = ("nparams", "nslots", "body")


class Builtin:
    __slots__ = ("name", "n", "f")

    def __init__(self, name, n, f):
        self.name, self.n, self.f = name, n, f


def kind(v):
    t = type(v)
    if v is None:
        return "undef"
    return {bool: "bool", int: "int", float: "float", bytes: "str", YList: "list", YTable: "table", YSet: "set",
            Closure: "fn", Builtin: "fn"}[t]


def tkey(k):
    t = type(k)
    if t is float:
        return ("f", struct.pack("<d", k) if k == k else b"nan")
    if t is int:
        return ("i", k)
    if t is bytes:
        return ("s", k)
    if t is bool:
        return ("b", k)
    if k is None:
        return ("u",)
    return None


def rawget(t, k):
    """(found, value)"""
    x = tkey(k)
    if x is None:
        return False, None
    e = t.d.get(x)
    return (True, e[1]) if e is not None else (False, None)


def falsey(v):
    return v is None or v is False or v == b"" or (type(v) is float and v != v)


def isnum(v):
    return type(v) is int or type(v) is float


def f64(n):
    return float(n)      # round to nearest even, as C does


def isequal(a, b):
    ta, tb = type(a), type(b)
    if ta is int and tb is int or ta is bytes and tb is bytes or ta is bool and tb is bool:
        return a == b
    if a is None and b is None:
        return True
    if isnum(a) and isnum(b):
        return f64(a) == f64(b)
    return False


def fmt_float(x):
    if x != x:
        return b"nan"
    if x in (math.inf, -math.inf):
        return b"inf" if x > 0 else b"-inf"
    s = ("%f" % x).rstrip("0")
    if s.endswith("."):
        s += "0"
    return s.encode()


BRK, CNT = object(), object()


class Scope:
    __slots__ = ("vars", "parent")

    def __init__(self, parent):
        self.vars, self.parent = {}, parent


class FnC:
    """Static state of the function being compiled."""

    def __init__(self, parent):
        self.parent = parent
        self.scope = Scope(None)
        self.nlive = 0
        self.nslots = 0
        self.ups = []       # (from local?, index)
        self.upidx = {}
        self.loops = 0


class Var:
    __slots__ = ("slot", "const", "fn")

    def __init__(self, slot, const, fn):
        self.slot, self.const, self.fn = slot, const, fn


INTBIN = {"|": (int.__or__, b"__bor"), "^": (int.__xor__, b"__bxor"), "&": (int.__and__, b"__band"),
          "&^": (lambda a, b: a & ~b, b"__bandnot"),
          ">>": (lambda a, b: a >> (b & 63), b"__bshr"), "<<": (lambda a, b: wrap(a << (b & 63)), b"__bshl")}


def ipow(a, b):
    if b < 0:
        return c_pow(f64(a), f64(b))
    if abs(a) <= 1:
        return a ** (b % 2 if a == -1 else (1 if b else 0)) if a != 0 or b == 0 else 0
    if b > 64:
        return IMIN
    r = a ** b
    return r if IMIN <= r <= IMAX else IMIN


def tdiv(a, b):
    q = abs(a) // abs(b)
    return wrap(-q if (a < 0) != (b < 0) else q)


def tmod(a, b):
    r = abs(a) % abs(b)
    return -r if a < 0 else r


def fdiv(a, b):
    a, b = f64(a), f64(b)
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


NUMBIN = {"+": (lambda a, b: wrap(a + b), lambda a, b: a + b, b"__add"),
          "-": (lambda a, b: wrap(a - b), lambda a, b: a - b, b"__sub"),
          "*": (lambda a, b: wrap(a * b), lambda a, b: a * b, b"__mul"),
          "**": (ipow, c_pow, b"__pow")}
CMP = {"<": (lambda a, b: a < b, b"__lt"), "<=": (lambda a, b: a <= b, b"__le"),
       ">": (lambda a, b: a > b, b"__gt"), ">=": (lambda a, b: a >= b, b"__ge")}


class Outcome:
    __slots__ = ("code", "out", "kind", "line", "trace", "steps", "stats", "msg", "ordered")

    def __init__(self):
        self.ordered = False

    def lines_ok(self, line, trace):
        ok = lambda a, b: a == b or type(a) is tuple and b is not None and a[0] <= b <= a[1]
        return ok(self.line, line) and len(trace) == len(self.trace) and all(map(ok, self.trace, trace))

    def structure(self):
        return self.code, self.out, self.kind, self.line, tuple(self.trace)


ORDERS = (0, 1, 2, 3, 4)


class Interp:
    def __init__(self, budget=200000, reverse=False, modules=None, args=None):
        self.out = []
        self.outlen = 0
        self.steps = budget
        self.reverse = reverse      # one of ORDERS: in what order elements of sets and tables come
        self.ordered = False        # whether that was asked
        self.depth = 0
        self.opline = 0
        self.stats = {}
        from . import yasllib
        self.mts = {}
        self.globals, self.hostglobals = {}, set()
        yasllib.install(self)
        if args is not None:
            self.globals[b"args"] = self.list([a for a in args])
            self.hostglobals.add(b"args")

    # ---- values
    def list(self, v):
        return YList(v, self.mts["list"])

    def table(self):
        return YTable(self.mts["table"])

    def getmt(self, v):
        t = type(v)
        if t is YList or t is YTable or t is YSet:
            return v.mt
        return self.mts.get(kind(v))

    def order(self, d):
        r = list(d.values())
        if len(r) > 1:
            self.ordered = True
            if self.reverse == 1:
                r.reverse()
            elif self.reverse:
                r.sort(key=lambda e: zlib.crc32(repr((self.reverse, tkey(e[0]))).encode()))
        return r

    def tset(self, t, k, v):
        """Stores unconditionally (v is not undef)."""
        x = tkey(k)
        if x is None:
            raise YErr(TYPE)
        t.d[x] = (k, v)

    # ---- calls
    def callable(self, f, L):
        t = type(f)
        if t is Closure or t is Builtin:
            return f
        m = self.getmt(f)
        if m is not None:
            ok, c = rawget(m, b"__call")
            if ok and type(c) in (Closure, Builtin):
                return c
        raise YErr(TYPE, L)

    def call(self, f, args, L):
        """Calls a function value; returns the list of results."""
        self.steps -= 1
        if self.steps < 0:
            raise Unspec("steps")
        if type(f) is Closure:
            fn = f.fn
            n = fn.nparams
            if len(args) < n:
                args = args + [None] * (n - len(args))
            fr = [None] * (fn.nslots + 1)
            fr[0] = f.up
            for i in range(n):
                fr[i + 1] = [args[i]]
            self.depth += 1
            if self.depth > 60:
                raise Unspec("depth")
            try:
                r = fn.body(fr)
            except YErr as e:
                e.trace.append(L)
                e.passed = True
                raise
            self.depth -= 1
            return r if type(r) is list else [None]
        n = f.n
        if n >= 0:
            if len(args) < n:
                args = args + [None] * (n - len(args))
            else:
                args = args[:n]
        save = self.opline
        self.opline = L
        self.depth += 1
        if self.depth > 60:
            raise Unspec("depth")
        try:
            r = f.f(self, *args) if n >= 0 else f.f(self, args)
        except YErr as e:
            # the built-in function that fails itself has no line of its own
            if e.line is None:
                e.line = L
            elif e.passed:
                e.trace.append(L)
            e.passed = True
            raise
        self.opline = save
        self.depth -= 1
        return r

    def call1(self, f, args, L):
        r = self.call(self.callable(f, L), args, L)
        return r[0] if r else None

    def method(self, v, name):
        m = self.getmt(v)
        if m is None:
            return False, None
        return rawget(m, name)

    def overload(self, name, args, L, code=TYPE):
        ok, f = self.method(args[0], name)
        if not ok:
            raise YErr(code, L)
        return self.call1(f, args, L)

    def get(self, v, k, L):
        m = self.getmt(v)
        if m is not None:
            ok, r = rawget(m, k)
            if ok:
                return r
            ok, f = rawget(m, b"__get")
            if ok:
                return self.call1(f, [v, k], L)
        if type(v) is YTable:
            ok, r = rawget(v, k)
            if ok:
                return r
        raise YErr(VAL, L)

    def set(self, o, k, v, L):
        ok, f = self.method(o, b"__set")
        if not ok:
            raise YErr(TYPE, L)
        self.call(self.callable(f, L), [o, k, v], L)

    def length(self, v, L):
        if type(v) is bytes:
            return len(v)
        return self.overload(b"__len", [v], L)

    def eq(self, a, b, L):
        ta = type(a)
        if ta is type(b) and ta in (YList, YTable, YSet):
            return self.overload(b"__eq", [a, b], L)
        return isequal(a, b)

    def tostr(self, v, L):
        if type(v) in (Closure, Builtin):
            raise Unspec("printed function")
        ok, f = self.method(v, b"tostr")
        if not ok:
            raise YErr(TYPE, L)
        r = self.call1(f, [v], L)
        if type(r) is not bytes:
            raise YErr(TYPE, L)
        return r

    def binop(self, op, a, b, L):
        self.stats[op] = self.stats.get(op, 0) + 1
        ta, tb = type(a), type(b)
        if op in NUMBIN:
            fi, ff, name = NUMBIN[op]
            if ta is int and tb is int:
                return fi(a, b)
            if isnum(a) and isnum(b):
                return ff(f64(a), f64(b))
            return self.overload(name, [a, b], L)
        if op in INTBIN:
            f, name = INTBIN[op]
            if ta is int and tb is int:
                return f(a, b)
            return self.overload(name, [a, b], L)
        if op in ("//", "%"):
            if tb is int and b == 0:
                raise YErr(DIV, L)
            if ta is int and tb is int:
                return tdiv(a, b) if op == "//" else tmod(a, b)
            return self.overload(b"__idiv" if op == "//" else b"__mod", [a, b], L)
        if op == "/":
            if isnum(a) and isnum(b):
                return fdiv(a, b)
            return self.overload(b"__div", [a, b], L)
        if op in CMP:
            f, name = CMP[op]
            if ta is bytes and tb is bytes or ta is int and tb is int:
                return f(a, b)
            if isnum(a) and isnum(b):
                return f(f64(a), f64(b))
            return self.overload(name, [a, b], L)
        if op == "==":
            return self.eq(a, b, L)
        if op == "!=":
            return falsey(self.eq(a, b, L))
        if op in ("===", "!=="):
            if ta is tb and ta in (bytes, Closure, Builtin, YSet):
                if ta is not bytes or a == b:
                    raise Unspec("identity")
                r = False
            elif ta is tb and ta is float:
                if a != a or b != b or a == b == 0:
                    raise Unspec("identity")
                r = a == b
            elif ta in (YList, YTable):
                r = a is b
            else:
                r = ta is tb and a == b
            return r if op == "===" else not r
        if op == "~":
            y = self.tostr(b, L)
            x = self.tostr(a, L)
            if len(x) + len(y) > 1 << 20:
                raise Unspec("size")
            return x + y
        raise AssertionError(op)

    def unop(self, op, a, L):
        self.stats["u" + op] = self.stats.get("u" + op, 0) + 1
        if op == "!":
            return falsey(a)
        if op == "len":
            return self.length(a, L)
        if op == "^":
            if type(a) is int:
                return ~a
            return self.overload(b"__bnot", [a], L)
        if isnum(a):
            if op == "+":
                return a
            return wrap(-a) if type(a) is int else -a
        return self.overload(b"__neg" if op == "-" else b"__pos", [a], L)

    def slice(self, o, s, e, L):
        if type(o) is YList:
            n = len(o.v)
        elif type(o) is bytes:
            n = len(o)
        else:
            raise YErr(TYPE, L)
        if e is None:
            e = n
        elif type(e) is int:
            if e < 0:
                e += n
            e = min(e, n)
        else:
            raise YErr(TYPE, L)
        if s is None:
            s = 0
        elif type(s) is int:
            if s < 0:
                s += n
            s = max(s, 0)
        else:
            raise YErr(TYPE, L)
        if s > e:
            return b"" if type(o) is bytes else self.list([])
        return o[s:e] if type(o) is bytes else self.list(o.v[s:e])

    def echo(self, v, L):
        s = self.tostr(v, L).replace(b"\0", b"") + b"\n"
        self.outlen += len(s)
        if self.outlen > 200000:
            raise Unspec("output")
        self.out.append(s)

    def tick(self):
        self.steps -= 1
        if self.steps < 0:
            raise Unspec("steps")

    def iterate(self, c, L):
        t = type(c)
        if t is YList:
            i = 0
            while i < len(c.v):
                yield c.v[i]
                i += 1
        elif t is bytes:
            for i in range(len(c)):
                yield c[i:i + 1]
        elif t is YTable:
            for k, v in self.order(c.d):
                if c.d.get(tkey(k)) is None:
                    raise Unspec("table changed")
                yield k
                # adding or removing during iteration
            # (checked by the size recorded below)
        else:
            raise YErr(TYPE, L)


class Compiler:
    """Static checks and compilation to closures, in the order of the original's passes."""

    def __init__(self, I, repl=None):
        self.I = I
        self.repl = repl            # the compiler whose top-level variables are the state's globals
        self.frame = None
        self._a = self._b = 0       # current line; the same when operations on literals count as one literal
        self.fn = None
        self.left = True
        self.seen = set()
        self.arm_scopes = []

    # ---- scopes
    def enter(self):
        self.fn.scope = Scope(self.fn.scope)

    def leave(self):
        self.fn.nlive -= len(self.fn.scope.vars)
        self.fn.scope = self.fn.scope.parent

    def declare(self, name, const=False):
        fn = self.fn
        fn.nslots += 1
        v = Var(fn.nslots, const, fn)
        fn.scope.vars[name] = v
        fn.nlive += 1
        if fn.nlive > 255:
            raise Reject("too many variables")
        return v

    def taken(self, name):
        s = self.fn.scope
        return name in s.vars or (self.repl is self and s is self.top and name in self.I.globals)

    def find(self, name):
        fn = self.fn
        while fn:
            s = fn.scope
            while s:
                if name in s.vars:
                    return s.vars[name]
                s = s.parent
            fn = fn.parent
        if self.repl and self.repl is not self:
            return self.repl.top.vars.get(name)
        return None

    def upval(self, fn, var):
        k = id(var)
        if k in fn.upidx:
            return fn.upidx[k]
        if fn.parent is var.fn:
            src = (True, var.slot)
        else:
            src = (False, self.upval(fn.parent, var))
        fn.upidx[k] = len(fn.ups)
        fn.ups.append(src)
        if len(fn.ups) > 255:
            raise Reject("upvalues")
        return fn.upidx[k]

    def load(self, name):
        v = self.find(name)
        if name == b"__VERSION__":
            raise Unspec("version")
        if v is None:
            if name in self.I.globals:
                g = self.I.globals
                return lambda f: g[name]
            raise Reject("undeclared %r" % name)
        if v.fn is self.fn:
            i = v.slot
            return lambda f: f[i][0]
        if self.repl and self.repl.top.vars.get(name) is v:
            i, g = v.slot, self.repl.frame
            return lambda f: g[i][0]
        j = self.upval(self.fn, v)
        return lambda f: f[0][j][0]

    def store(self, name):
        v = self.find(name)
        if v is None:
            if name in self.I.hostglobals:
                g = self.I.globals
                return lambda f, x: g.__setitem__(name, x)
            if name in self.I.globals:
                raise Unspec("store to global")
            raise Reject("undeclared %r" % name)
        if v.const:
            raise Reject("const %r" % name)
        if v.fn is self.fn:
            i = v.slot

            def st(f, x):
                f[i][0] = x
            return st
        if self.repl and self.repl.top.vars.get(name) is v:
            i, g = v.slot, self.repl.frame

            def st3(f, x):
                g[i][0] = x
            return st3
        j = self.upval(self.fn, v)

        def st2(f, x):
            f[0][j][0] = x
        return st2

    @property
    def cl(self):
        return self._a if self._a == self._b else (self._b, self._a)

    def at(self, n):
        self._a = max(self._a, n.line)
        self._b = max(self._b, n.line)

    def validate(self, fn, *a):
        a0, b0 = self._a, self._b
        fn(*a)
        self._a, self._b = a0, b0

    # ---- program
    def program(self, stmts):
        self.fn = FnC(None)
        self.fn.top = True
        self.enter()
        code = self.stmts(stmts)
        fr = [None] * (self.fn.nslots + 1)
        return code, fr

    def stmts(self, stmts):
        cs = [c for c in [self.stmt(s) for s in stmts] if c is not None]
        I = self.I
        if not cs:
            return lambda f: None
        if len(cs) == 1:
            return cs[0]

        def run(f):
            for c in cs:
                r = c(f)
                if r is not None:
                    return r
            return None
        return run

    def block(self, b):
        """b: Node block"""
        self.at(b)
        self.enter()
        r = self.body(b.a)
        self.leave()
        return r

    def body(self, b):
        self.at(b)
        return self.stmts(b.a)

    def stmt(self, n):
        self.at(n)
        return getattr(self, "s_" + n.t)(n)

    def s_block(self, n):
        self.enter()
        r = self.body(n.a)
        self.leave()
        return r

    def s_echo(self, n):
        e = self.expr(n.a)
        L, I = self.cl, self.I

        def run(f):
            I.echo(e(f), L)
        return run

    def s_assert(self, n):
        e = self.expr(n.a)
        L, I = self.cl, self.I

        def run(f):
            v = e(f)
            if falsey(v):
                s = I.tostr(v, L)
                raise YErr(ASSERT, L, s)
        return run

    def s_export(self, n):
        if self.fn.parent or (self.fn.scope is not self.top if self.repl is self else self.fn.scope.parent.parent):
            raise Reject("export")
        e = self.expr(n.a)

        def run(f):
            v = e(f)
            if not hasattr(self.I, "require_depth"):
                raise Unspec("export")
            raise Export(v)
        return run

    def s_return(self, n):
        if not self.fn.parent:
            raise Reject("return")
        es = self.args(n.a)
        return es

    def s_break(self, n):
        if not self.fn.loops:
            raise Reject("break")
        return lambda f: BRK

    def s_continue(self, n):
        if not self.fn.loops:
            raise Reject("continue")
        return lambda f: CNT

    def s_exprstmt(self, n):
        e = n.a
        if e.t in ("str", "int", "float", "bool", "undef"):
            return None
        folded = fold(e)
        if folded is not None:
            return None
        if e.t == "var":
            self.validate(self.expr, e)
            return None
        c = self.expr(e)

        def run(f):
            c(f)
        return run

    def s_assign(self, n):
        if self.find(n.a) is None and n.a not in self.I.globals:
            raise Reject("undeclared")
        e = self.expr(n.b)
        st = self.store(n.a)

        def run(f):
            st(f, e(f))
        return run

    def s_set(self, n):
        c = self.expr(n.a)
        k = self.expr(n.b)
        v = self.expr(n.c)
        L, I = self.cl, self.I

        def run(f):
            o = c(f)
            x = k(f)
            I.set(o, x, v(f), L)
        return run

    def s_let1(self, n):
        if self.taken(n.a):
            raise Reject("redeclaration")
        e = self.expr(n.b)
        i = self.declare(n.a).slot

        def run(f):
            f[i] = [e(f)]
        return run

    def s_letfn(self, n):
        if self.taken(n.a):
            raise Reject("redeclaration")
        i = self.declare(n.a).slot
        e = self.expr(n.b)
        self.fn.scope.vars[n.a].const = bool(n.c)

        def run(f):
            cell = f[i] = [None]
            cell[0] = e(f)
        return run

    def s_decl(self, n):
        want = len(n.a)
        rv = n.b
        exp = expands(rv[-1])
        if exp:
            head = [self.expr(x) for x in rv[:-1]]
            last = self.expr(rv[-1], multi=True)
            k = want - len(head)

            def vals(f):
                r = [h(f) for h in head]
                m = last(f)
                if len(m) < k:
                    m = m + [None] * (k - len(m))
                return r + m[:k]
        else:
            head = [self.expr(x) for x in rv]

            def vals(f):
                return [h(f) for h in head]
        I = self.I
        sts = []
        for l in n.a:
            if l.t == "assign":
                if self.find(l.a) is None and l.a not in I.globals:
                    raise Reject("undeclared")
                sts.append(self.store(l.a))
            elif l.t == "set":
                c = self.expr(l.a)
                key = self.expr(l.b)
                sts.append(self.mkset(c, key, self.cl))
            else:
                if self.taken(l.a):
                    raise Reject("redeclaration")
                i = self.declare(l.a, l.t == "const").slot
                sts.append(self.mklet(i))

        def run(f):
            vs = vals(f)
            for s, v in zip(sts, vs):
                s(f, v)
        return run

    def mkset(self, c, k, L):
        I = self.I

        def st(f, v):
            o = c(f)
            I.set(o, k(f), v, L)
        return st

    def mklet(self, i):
        def st(f, v):
            f[i] = [v]
        return st

    def const_cond(self, e):
        e = fold(e) or e
        if e.t == "int":
            return True
        if e.t == "bool":
            return e.a
        if e.t == "undef":
            return False
        return None

    def s_if(self, n):
        k = self.const_cond(n.a)
        el = (lambda: self.stmt(n.c)) if n.c else (lambda: None)
        if k is True:
            r = self.stmt(n.b)
            if n.c:
                self.validate(self.stmt, n.c)
            return r
        if k is False:
            self.validate(self.stmt, n.b)
            return el()
        c = self.expr(n.a)
        a = self.stmt(n.b)
        b = el()

        def run(f):
            if not falsey(c(f)):
                return a(f)
            if b:
                return b(f)
        return run

    def s_while(self, n):
        if self.const_cond(n.a) is False:
            self.fn.loops += 1
            self.validate(self.stmt, n.b)
            self.fn.loops -= 1
            if n.c:
                self.validate(self.stmt, n.c)
            return None
        post = self.stmt(n.c) if n.c else None
        c = self.expr(n.a)
        self.fn.loops += 1
        b = self.stmt(n.b)
        self.fn.loops -= 1
        I = self.I

        def run(f):
            while not falsey(c(f)):
                I.tick()
                r = b(f)
                if r is not None and r is not CNT:
                    if r is BRK:
                        return
                    return r
                if post:
                    post(f)
        return run

    def s_foriter(self, n):
        self.enter()
        c = self.expr(n.b)
        L, I = self.cl, self.I
        i = self.declare(n.a).slot
        self.fn.loops += 1
        b = self.stmt(n.c)
        self.fn.loops -= 1
        self.leave()

        def run(f):
            o = c(f)
            f[i] = [None]
            cell = f[i]
            t = type(o) is YTable
            size = len(o.d) if t else 0
            for x in I.iterate(o, L):
                I.tick()
                cell[0] = x
                r = b(f)
                if t and len(o.d) != size:
                    raise Unspec("table changed")
                if r is not None and r is not CNT:
                    if r is BRK:
                        return
                    return r
        return run

    # ---- match
    def s_match(self, n):
        subj = self.expr(n.a)
        arms = []
        for p, g, b in n.b:
            self.enter()
            self.left = True
            self.seen = set()
            pc = self.pat(p)
            gc = self.expr(g) if g else None
            bc = self.body(b)
            self.leave()
            arms.append((pc, gc, bc))

        def run(f):
            v = subj(f)
            for pc, gc, bc in arms:
                bind = {}
                if pc(v, bind):
                    for i, x in bind.items():
                        f[i] = [x]
                    if gc and falsey(gc(f)):
                        continue
                    return bc(f)
        return run

    def pat(self, p):
        self.at(p)
        t = p.t
        if t == "pany":
            return lambda v, b: True
        if t == "pundef":
            return lambda v, b: v is None
        if t == "plit":
            lit = p.a if type(p.a) is not int else wrap(p.a)
            return lambda v, b: isequal(lit, v)
        if t == "pbool":
            x = p.a
            return lambda v, b: v is x
        if t == "ptype":
            ty = {b"bool": bool, b"int": int, b"float": float, b"str": bytes, b"list": YList, b"table": YTable}[p.a]
            return lambda v, b: type(v) is ty
        if t == "pbind":
            self.seen.add(p.a)
            cur = self.fn.scope.vars
            if not self.left:
                if p.a not in cur:
                    raise Reject("not bound on the left")
            else:
                if p.a in cur:
                    raise Reject("rebinding")
                self.declare(p.a, p.b)
            var = cur[p.a]
            if var.const != p.b:
                raise Reject("let/const")
            i = var.slot

            def bind(v, b):
                b[i] = v
                return True
            return bind
        if t == "plist":
            old = self.left
            ps = []
            for x in p.a:
                ps.append(self.pat(x))
                self.left = old
            n, var = len(ps), p.b

            def pl(v, b):
                if type(v) is not YList or (len(v.v) < n if var else len(v.v) != n):
                    return False
                for i in range(n):
                    if not ps[i](v.v[i], b):
                        return False
                return True
            return pl
        if t == "ptable":
            old = self.left
            ps = []
            for k, x in p.a:
                if k.t == "ptype":
                    raise Unspec("type name as key")
                self.at(k)
                ps.append((k.a, self.pat(x)))
                self.left = old
            n, var = len(ps), p.b

            def pt(v, b):
                if type(v) is not YTable or (not var and len(v.d) != n):
                    return False
                for k, x in ps:
                    ok, y = rawget(v, k)
                    if not ok or not x(y, b):
                        return False
                return True
            return pt
        if t == "palt":
            prev = self.seen
            self.seen = set()
            a = self.pat(p.a)
            old = self.seen
            self.seen = set()
            self.left = False
            c = self.pat(p.b)
            if old != self.seen:
                raise Reject("alternatives bind different names")
            self.seen = prev | old

            def alt(v, b):
                return a(v, b) or c(v, b)
            return alt
        raise AssertionError(t)

    # ---- expressions
    def args(self, es):
        """Closure giving the list of values of an argument list, expanding a final call."""
        if not es:
            return lambda f: []
        if expands(es[-1]):
            head = [self.expr(e) for e in es[:-1]]
            last = self.expr(es[-1], multi=True)

            def run(f):
                r = [h(f) for h in head]
                return r + last(f)
            return run
        cs = [self.expr(e) for e in es]
        return lambda f: [c(f) for c in cs]

    def expr(self, n, multi=False):
        self.at(n)
        b = self._b
        r = getattr(self, "e_" + n.t)(n, multi) if n.t in ("call", "mcall") else getattr(self, "e_" + n.t)(n)
        if self._a != b and n.t in ("bin", "un", "tri") and literal(n):
            self._b = b
        return r

    def e_lit(self, n):
        v = n.a
        return lambda f: v
    e_int = e_float = e_bool = e_str = e_lit

    def e_undef(self, n):
        return lambda f: None

    def e_var(self, n):
        return self.load(n.a)

    def e_bin(self, n):
        op = n.a
        a = self.expr(n.b)
        b = self.expr(n.c)
        L, I = self.cl, self.I
        if op == "??":
            def run(f):
                v = a(f)
                return b(f) if v is None else v
            return run
        if op == "||":
            def run(f):
                v = a(f)
                return b(f) if falsey(v) else v
            return run
        if op == "&&":
            def run(f):
                v = a(f)
                return v if falsey(v) else b(f)
            return run

        def run(f):
            x = a(f)
            return I.binop(op, x, b(f), L)
        return run

    def e_un(self, n):
        a = self.expr(n.b)
        L, I, op = self.cl, self.I, n.a
        return lambda f: I.unop(op, a(f), L)

    def e_tri(self, n):
        a = self.expr(n.a)
        b = self.expr(n.b)
        c = self.expr(n.c)
        return lambda f: c(f) if falsey(a(f)) else b(f)

    def e_get(self, n):
        a = self.expr(n.a)
        b = self.expr(n.b)
        L, I = self.cl, self.I

        def run(f):
            o = a(f)
            return I.get(o, b(f), L)
        return run

    def e_slice(self, n):
        a = self.expr(n.a)
        b = self.expr(n.b)
        c = self.expr(n.c)
        L, I = self.cl, self.I

        def run(f):
            o = a(f)
            s = b(f)
            return I.slice(o, s, c(f), L)
        return run

    def e_call(self, n, multi):
        o = self.expr(n.a)
        L0 = self.cl
        args = self.args(n.b)
        L, I = self.cl, self.I

        def run(f):
            fv = I.callable(o(f), L0)
            r = I.call(fv, args(f), L)
            return r if multi else (r[0] if r else None)
        return run

    def e_mcall(self, n, multi):
        o = self.expr(n.a)
        L0 = self.cl
        args = self.args(n.c)
        L, I, name = self.cl, self.I, n.b

        def run(f):
            v = o(f)
            fv = I.callable(I.get(v, name, L0), L0)
            r = I.call(fv, [v] + args(f), L)
            return r if multi else (r[0] if r else None)
        return run

    def e_list(self, n):
        cs = [self.expr(e) for e in n.a]
        I = self.I
        return lambda f: I.list([c(f) for c in cs])

    def e_table(self, n):
        cs = [self.expr(e) for e in n.a]
        L, I = self.cl, self.I

        def run(f):
            return self.mktable([c(f) for c in cs], L)
        return run

    def mktable(self, vs, L):
        """Later pairs are stored first; an earlier one replaces them."""
        I = self.I
        t = I.table()
        for i in range(len(vs) - 2, -1, -2):
            k, v = vs[i], vs[i + 1]
            if v is None:
                continue
            if tkey(k) is None:
                raise YErr(TYPE, L)
            t.d[tkey(k)] = (k, v)
        return t

    def comp(self, n, exprs):
        name, coll, cond, il = n.b
        self.enter()
        c = self.expr(coll)
        L0, I = self.cl, self.I
        i = self.declare(name).slot
        g = self.expr(cond) if cond else None
        es = [self.expr(e) for e in exprs]
        self.leave()
        L = self.cl

        def run(f):
            o = c(f)
            f[i] = [None]
            cell = f[i]
            out = []
            size = len(o.d) if type(o) is YTable else 0
            for x in I.iterate(o, L0):
                I.tick()
                cell[0] = x
                if g and falsey(g(f)):
                    continue
                for e in es:
                    out.append(e(f))
                if type(o) is YTable and len(o.d) != size:
                    raise Unspec("table changed")
            return out
        return run, L

    def e_lcomp(self, n):
        run, L = self.comp(n, n.a[:1])
        I = self.I
        return lambda f: I.list(run(f))

    def e_tcomp(self, n):
        run, L = self.comp(n, n.a)
        return lambda f: self.mktable(run(f), L)

    def e_fn(self, n):
        fn = self.fn = FnC(self.fn)
        for const, name, line in n.a:
            if name in fn.scope.vars:
                raise Reject("parameter")
            self.declare(name, const)
        body = self.body(n.b)
        self.fn = fn.parent
        F = Fn()
        F.nparams, F.body = len(n.a), body
        ups = fn.ups

        def run(f):
            F.nslots = fn.nslots
            return Closure(F, [f[i] if loc else f[0][i] for loc, i in ups])
        return run


def literal(n):
    if n.t in ("int", "float", "str", "bool", "undef"):
        return True
    if n.t == "bin":
        return literal(n.b) and literal(n.c)
    if n.t == "un":
        return literal(n.b)
    if n.t == "tri":
        return literal(n.a) and literal(n.b) and literal(n.c)
    return False


def fold(e):
    """Literal node an expression made of literals folds to, or None."""
    return None


def execute(src, budget, reverse, args, setup=None, after=None, **kw):
    """setup(I) runs before and after(I) after the program, whatever its outcome."""
    I = Interp(budget, reverse, args=args, **kw)
    if setup:
        setup(I)
    o = Outcome()
    o.out, o.kind, o.line, o.trace, o.code = b"", None, None, [], 0
    try:
        code, fr = Compiler(I).program(parse(src))
    except Reject:
        o.code = 4
        o.steps, o.stats, o.ordered = 0, {}, False
        return o
    except RecursionError:
        raise Unspec("nesting")
    try:
        code(fr)
    except YErr as e:
        o.code, o.kind, o.line, o.trace = e.code, PREFIX.get(e.code), e.line, e.trace
    except RecursionError:
        raise Unspec("recursion")
    if after:
        try:
            after(I, o)
        except RecursionError:
            raise Unspec("recursion")
    o.out = b"".join(I.out)
    o.steps = budget - I.steps
    o.stats = I.stats
    o.ordered = I.ordered
    return o


class Session:
    """Sources run one after the other on one state."""

    def __init__(self, budget=60000, reverse=False, setup=None, args=None):
        self.budget = budget
        self.I = Interp(budget, reverse, args=args)
        if setup:
            setup(self.I)
        self.c = c = Compiler(self.I)
        c.repl = c
        c.fn0 = c.fn = FnC(None)
        c.fn.top = True
        c.enter()
        c.top = c.fn.scope
        c.frame = [None]

    def piece(self, src, interactive):
        I = self.I
        o = Outcome()
        o.out, o.kind, o.line, o.trace, o.code, o.msg = b"", None, None, [], 0, None
        o.steps, o.stats = 0, {}
        first = len(I.out)
        c = self.c
        scope = c.top
        old = dict(scope.vars)
        try:
            if not interactive:
                code, fr = Compiler(I, c).program(parse(src))
            else:
                c.fn = c.fn0
                c.fn.scope, c.fn.loops, c.fn.nlive = scope, 0, 0
                c._a = c._b = 0
                stmts = parse(src)
                if stmts and stmts[-1].t == "exprstmt":
                    stmts[-1] = Node("echo", stmts[-1].line, stmts[-1].a)
                code = c.stmts(stmts)
                fr = c.frame
                fr += [[None] for _ in range(c.fn.nslots + 1 - len(fr))]
        except Reject:
            c.fn = c.fn0
            scope.vars = old
            c.fn.scope = scope
            o.code = 4
            return o
        except RecursionError:
            raise Unspec("nesting")
        try:
            code(fr)
        except YErr as e:
            o.code, o.kind, o.line, o.trace, o.msg = e.code, PREFIX.get(e.code), e.line, e.trace, e.msg
        except Export:
            o.code = 1
        except RecursionError:
            raise Unspec("recursion")
        I.depth = I.require_depth = 0
        o.out = b"".join(I.out[first:])
        o.steps = self.budget - I.steps
        return o


def session(pieces, setup=None, budget=60000):
    """Outcomes of [(source, interactive)] on one state."""
    first = None
    for rev in ORDERS:
        s = Session(budget, rev, setup)
        res = [s.piece(src, i) for src, i in pieces]
        for a in res:
            a.out = canon(a.out)
        if first is None:
            first = res
        elif [a.structure() for a in res] != [a.structure() for a in first]:
            raise Unspec("order")
        if not s.I.ordered:
            break
    return first


def canon(out):
    """Lines beginning with '~' stand for a set: consecutive ones are sorted."""
    if b"~" not in out:
        return out
    res, grp = [], []
    for l in out.split(b"\n"):
        if l[:1] == b"~":
            grp.append(l)
            continue
        if grp:
            res += sorted(grp)
            grp = []
        res.append(l)
    return b"\n".join(res + sorted(grp))


def run(src, budget=200000, args=(), **kw):
    a = execute(src, budget, 0, args, **kw)
    a.out = canon(a.out)
    if a.ordered:
        for rev in ORDERS[1:]:
            b = execute(src, budget, rev, args, **kw)
            b.out = canon(b.out)
            if a.structure() != b.structure():
                raise Unspec("order")
    return a


def parse_err(err):
    """(kind, line, [trace lines]) read off the interpreter's stderr."""
    import re
    ls = err.split(b"\n")
    tr = []
    k = line = None
    for i, l in enumerate(ls):
        m = re.match(rb"In function call on line (\d+)$", l)
        if m:
            tr.append(int(m.group(1)))
    j = next((i for i, l in enumerate(ls) if re.match(rb"In function call on line (\d+)$", l)), len(ls))
    head = b"\n".join(ls[:j])
    m = re.search(rb"\(line (\d+)\)\n?$", head)
    if m:
        line = int(m.group(1))
    for p in PREFIX.values():
        if head.startswith(p):
            k = p
    if head.startswith(b"SyntaxError"):
        k = b"SyntaxError"
    return k, line, tr
