"""Programs whose values are host objects with destructors, next to an exact account of when each must go.

A program is built as a small tree that is both printed as source and executed on Python objects; the
host objects of that execution record when CPython drops their last reference."""
import gc, re


LIVE = [0]      # containers and closures alive


class UD:
    __slots__ = ("id", "log")

    def __init__(self, id, log):
        self.id, self.log = id, log

    def __del__(self):
        self.log.append(self.id)


class Lst:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v
        LIVE[0] += 1

    def __del__(self):
        LIVE[0] -= 1


class Tab:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d
        LIVE[0] += 1

    def __del__(self):
        LIVE[0] -= 1


class Clo:
    __slots__ = ("params", "body", "cells")

    def __init__(self, params, body, cells):
        self.params, self.body, self.cells = params, body, cells
        LIVE[0] += 1

    def __del__(self):
        LIVE[0] -= 1


class Fail(Exception):
    pass


class Stop(Exception):
    pass


NEXT, BREAK, CONT, RET = range(4)


class Shadow:
    def __init__(self, budget=400):
        self.log, self.made, self.out, self.budget = [], 0, [], budget
        self.depth = 0

    # --- expressions -------------------------------------------------
    def ev(self, e, env):
        return getattr(self, "e_" + e[0])(e, env)

    def e_var(self, e, env):
        return env[e[1]][0]

    def e_undef(self, e, env):
        return None

    def e_int(self, e, env):
        return e[1]

    def e_new(self, e, env):
        self.made += 1
        return UD(self.made - 1, self.log)

    def e_list(self, e, env):
        return Lst([self.ev(x, env) for x in e[1]])

    def e_table(self, e, env):
        t = Tab({})
        for k, x in e[1]:
            v = self.ev(x, env)
            t.d[k] = v
        return t

    def e_fn(self, e, env):
        return Clo(e[1], e[2], {n: env[n] for n in free(e[1], e[2])})

    def e_idx(self, e, env):
        o = env[e[1]][0]
        if type(o) is Lst:
            k = e[2]
            if type(k) is not int or k >= len(o.v):
                raise Fail
            return o.v[k]
        if type(o) is Tab:
            return o.d.get(e[2])
        raise Fail

    def e_pop(self, e, env):
        o = env[e[1]][0]
        if type(o) is not Lst or not o.v:
            raise Fail
        return o.v.pop()

    def e_slice(self, e, env):
        o = env[e[1]][0]
        if type(o) is not Lst:
            raise Fail
        return Lst(o.v[e[2]:e[3]])

    def e_clone(self, e, env):
        o = env[e[1]][0]
        if type(o) is Lst:
            return Lst(list(o.v))
        if type(o) is not Tab:
            raise Fail
        return Tab(dict(o.d))

    def e_cond(self, e, env):
        return self.ev(e[2] if e[1] else e[3], env)

    def e_or(self, e, env):
        v = self.ev(e[1], env)
        if v is not None and v is not False:
            return v
        return self.ev(e[2], env)

    def e_comp(self, e, env):
        o = env[e[2]][0]
        if type(o) is Tab:
            raise Stop      # hash order
        if type(o) is not Lst:
            raise Fail
        r, i = [], 0
        cell = [None]       # one variable for the whole loop
        loc = {**env, e[1]: cell}
        while i < len(o.v):
            self.budget -= 1
            if self.budget < 0:
                raise Stop
            cell[0] = o.v[i]
            r.append(self.ev(e[3], loc))
            i += 1
        return Lst(r)

    def e_call(self, e, env):
        f = env[e[1]][0]
        if type(f) is not Clo:
            raise Fail
        args = [self.ev(x, env) for x in e[2]][:len(f.params)]
        args += [None] * (len(f.params) - len(args))
        if self.depth > 12:
            raise Stop
        loc = dict(f.cells)
        for n, a in zip(f.params, args):
            loc[n] = [a]
        a = args = None
        self.depth += 1
        try:
            k, v = self.block(f.body, loc)
        finally:
            self.depth -= 1
        return v

    # --- statements --------------------------------------------------
    def block(self, body, env):
        env = dict(env)
        for s in body:
            self.budget -= 1
            if self.budget < 0:
                raise Stop
            k, v = getattr(self, "s_" + s[0])(s, env)
            if k != NEXT:
                return k, v
        return NEXT, None

    def s_let(self, s, env):
        env[s[1]] = [self.ev(s[2], env)]
        return NEXT, None

    def s_fndecl(self, s, env):
        env[s[1]] = [self.e_fn((0, s[2], s[3]), env)]
        return NEXT, None

    def s_set(self, s, env):
        v = self.ev(s[2], env)
        env[s[1]][0] = v
        return NEXT, None

    def s_swap(self, s, env):
        a, b = env[s[1]][0], env[s[2]][0]
        env[s[1]][0], env[s[2]][0] = b, a
        return NEXT, None

    def s_setidx(self, s, env):
        o = env[s[1]][0]
        v = self.ev(s[3], env)
        if type(o) is Lst:
            if type(s[2]) is not int or s[2] >= len(o.v):
                raise Fail
            o.v[s[2]] = v
        elif type(o) is Tab:
            o.d[s[2]] = v
        else:
            raise Fail
        return NEXT, None

    def s_push(self, s, env):
        o = env[s[1]][0]
        if type(o) is not Lst:
            raise Fail
        o.v.append(self.ev(s[2], env))
        return NEXT, None

    def s_clear(self, s, env):
        o = env[s[1]][0]
        if type(o) is Lst:
            o.v = []
        elif type(o) is Tab:
            o.d = {}
        else:
            raise Fail
        return NEXT, None

    def s_remove(self, s, env):
        o = env[s[1]][0]
        if type(o) is not Tab:
            raise Fail
        o.d.pop(s[2], None)
        return NEXT, None

    def s_expr(self, s, env):
        self.ev(s[1], env)
        return NEXT, None

    def s_probe(self, s, env):
        v = self.ev(s[1], env)
        self.out.append(("probe", "u%d" % v.id if type(v) is UD else None))
        return NEXT, None

    def s_mark(self, s, env):
        self.out.append(("mark", sorted(self.log)))
        del self.log[:]
        return NEXT, None

    def s_if(self, s, env):
        return self.block(s[2] if s[1] else s[3], env)

    def s_forin(self, s, env):
        o = env[s[2]][0]
        if type(o) is Tab:
            raise Stop      # hash order
        if type(o) is not Lst:
            raise Fail
        i = 0
        cell = [None]       # one variable for the whole loop
        loc = {**env, s[1]: cell}
        while i < len(o.v):
            cell[0] = o.v[i]
            k, v = self.block(s[3], loc)
            i += 1
            if k == BREAK:
                break
            if k == RET:
                return k, v
        return NEXT, None

    def s_times(self, s, env):
        cell = [0]
        loc = {**env, s[1]: cell}
        while True:
            i = cell[0]
            if type(i) is not int:
                raise Stop      # compared or added to
            if i >= s[2]:
                break
            k, v = self.block(s[3], loc)
            if k == BREAK:
                break
            if k == RET:
                return k, v
            if type(cell[0]) is not int:
                raise Stop
            cell[0] += 1
        return NEXT, None

    def s_ret(self, s, env):
        return RET, self.ev(s[1], env)

    def s_break(self, s, env):
        return BREAK, None

    def s_cont(self, s, env):
        return CONT, None

    def s_match(self, s, env):
        """match on a list: its two elements bound, or the default arm."""
        o = self.ev(s[1], env)
        loc = dict(env)
        if type(o) is Lst and len(o.v) == 2:
            loc[s[2]], loc[s[3]] = [o.v[0]], [o.v[1]]
            body = s[4]
        else:
            body = s[5]
        o = None
        return self.block(body, loc)

    def s_fail(self, s, env):
        raise Fail


def free(params, body):
    """Names a function takes from outside."""
    out = set()
    fs(body, set(params), out)
    return out


def fe(e, bound, out):
    op = e[0]
    if op in ("var",):
        use(e[1], bound, out)
    elif op in ("idx", "pop", "slice", "clone"):
        use(e[1], bound, out)
    elif op == "call":
        use(e[1], bound, out)
        for x in e[2]:
            fe(x, bound, out)
    elif op == "list":
        for x in e[1]:
            fe(x, bound, out)
    elif op == "table":
        for k, x in e[1]:
            fe(x, bound, out)
    elif op == "cond":
        fe(e[2], bound, out), fe(e[3], bound, out)
    elif op == "or":
        fe(e[1], bound, out), fe(e[2], bound, out)
    elif op == "comp":
        use(e[2], bound, out)
        fe(e[3], bound | {e[1]}, out)
    elif op == "fn":
        fs(e[2], bound | set(e[1]), out)


def use(n, bound, out):
    if n not in bound:
        out.add(n)


def fs(body, bound, out):
    bound = set(bound)
    for s in body:
        op = s[0]
        if op == "let":
            fe(s[2], bound, out)
            bound.add(s[1])
        elif op == "fndecl":
            fs(s[3], bound | set(s[2]), out)
            bound.add(s[1])
        elif op == "set":
            use(s[1], bound, out)
            fe(s[2], bound, out)
        elif op == "swap":
            use(s[1], bound, out), use(s[2], bound, out)
        elif op == "setidx":
            use(s[1], bound, out)
            fe(s[3], bound, out)
        elif op == "push":
            use(s[1], bound, out)
            fe(s[2], bound, out)
        elif op in ("clear", "remove"):
            use(s[1], bound, out)
        elif op in ("expr", "probe", "ret"):
            fe(s[1], bound, out)
        elif op == "if":
            fs(s[2], bound, out), fs(s[3], bound, out)
        elif op == "forin":
            use(s[2], bound, out)
            fs(s[3], bound | {s[1]}, out)
        elif op == "times":
            fs(s[3], bound | {s[1]}, out)
        elif op == "match":
            fe(s[1], bound, out)
            fs(s[4], bound | {s[2], s[3]}, out)
            fs(s[5], bound, out)


# --- printing -----------------------------------------------------------
def pe(e):
    op = e[0]
    if op == "var":
        return e[1]
    if op == "undef":
        return "undef"
    if op == "int":
        return str(e[1])
    if op == "new":
        return "mk()"
    if op == "list":
        return "[" + ", ".join(pe(x) for x in e[1]) + "]"
    if op == "table":
        return "{" + ", ".join(".%s: %s" % (k, pe(x)) for k, x in e[1]) + "}"
    if op == "fn":
        return "fn(" + ", ".join(e[1]) + ") {\n" + ps(e[2]) + "}"
    if op == "idx":
        return "%s[%d]" % (e[1], e[2]) if type(e[2]) is int else "%s.%s" % (e[1], e[2])
    if op == "pop":
        return "%s->pop()" % e[1]
    if op == "slice":
        return "%s[%d:%d]" % (e[1], e[2], e[3])
    if op == "clone":
        return "%s->copy()" % e[1]
    if op == "cond":
        return "(%s ? %s : %s)" % ("true" if e[1] else "false", pe(e[2]), pe(e[3]))
    if op == "or":
        return "(%s || %s)" % (pe(e[1]), pe(e[2]))
    if op == "comp":
        return "[ %s for %s <- %s ]" % (pe(e[3]), e[1], e[2])
    if op == "call":
        return "%s(%s)" % (e[1], ", ".join(pe(x) for x in e[2]))
    raise KeyError(op)


def pst(s):
    op = s[0]
    if op == "let":
        return "let %s = %s" % (s[1], pe(s[2]))
    if op == "fndecl":
        return "fn %s(%s) {\n%s}" % (s[1], ", ".join(s[2]), ps(s[3]))
    if op == "set":
        return "%s = %s" % (s[1], pe(s[2]))
    if op == "swap":
        return "%s, %s = %s, %s" % (s[1], s[2], s[2], s[1])
    if op == "setidx":
        return "%s%s = %s" % (s[1], "[%d]" % s[2] if type(s[2]) is int else "." + s[2], pe(s[3]))
    if op == "push":
        return "%s->push(%s)" % (s[1], pe(s[2]))
    if op == "clear":
        return "%s->clear()" % s[1]
    if op == "remove":
        return "%s->remove('%s')" % (s[1], s[2])
    if op == "expr":
        return pe(s[1])
    if op == "probe":
        return "probe(%s)" % pe(s[1])
    if op == "mark":
        return "mark()"
    if op == "ret":
        return "return " + pe(s[1])
    if op == "break":
        return "break"
    if op == "cont":
        return "continue"
    if op == "fail":
        return s[1]
    if op == "if":
        return "if %s {\n%s} else {\n%s}" % ("true" if s[1] else "false", ps(s[2]), ps(s[3]))
    if op == "forin":
        return "for %s <- %s {\n%s}" % (s[1], s[2], ps(s[3]))
    if op == "times":
        return "for let %s = 0; %s < %d; %s += 1 {\n%s}" % (s[1], s[1], s[2], s[1], ps(s[3]))
    if op == "match":
        return "match %s {\n[let %s, let %s] {\n%s}\n* {\n%s}\n}" % (pe(s[1]), s[2], s[3], ps(s[4]), ps(s[5]))
    raise KeyError(op)


def ps(body):
    return "".join(pst(s) + "\n" for s in body)


# --- generation ---------------------------------------------------------
FAILS = ["1 + 'a'", "assert false", "undef->nope()", "7 // 0", "throwing()", "[1][5]", "for q <- 7 {}"]


class Gen:
    def __init__(self, r, fail=0.02):
        self.r, self.n, self.fail = r, 0, fail

    def name(self):
        self.n += 1
        return "v%d" % self.n

    def pick(self, vs, k=None):
        c = [n for n, t in vs.items() if k is None or t == k]
        return self.r.choice(c) if c else None

    def x(self, vs, d=2, want=None):
        """(expression, kind guess)"""
        r = self.r
        w = r.random()
        if want == "l":
            v = self.pick(vs, "l")
            if v and w < 0.5:
                return ("var", v), "l"
            if v and w < 0.6:
                return ("slice", v, 0, r.randint(0, 1)), "l"
            if v and w < 0.7:
                n = self.name()
                return ("comp", n, v, self.x({**vs, n: "u"}, d - 1)[0]), "l"
            return ("list", [self.x(vs, d - 1)[0] for _ in range(r.randint(0, 3))]), "l"
        if w < 0.28 or d <= 0 and w < 0.4:
            return ("new",), "u"
        if w < 0.48 or d <= 0:
            v = self.pick(vs)
            return (("var", v), vs[v]) if v else (("new",), "u")
        if w < 0.56:
            return self.x(vs, d, "l")
        if w < 0.64:
            return ("table", [(k, self.x(vs, d - 1)[0]) for k in r.sample("abc", r.randint(0, 2))]), "t"
        if w < 0.72:
            return self.fn(vs, d - 1), "f"
        if w < 0.80:
            f = self.pick(vs, "f")
            if f:
                return ("call", f, [self.x(vs, d - 1)[0] for _ in range(r.randint(0, 3))]), "?"
        if w < 0.86:
            v = self.pick(vs, "t")
            if v:
                return (("idx", v, r.choice("abc")), "?") if r.random() < 0.8 else (("clone", v), "t")
        if w < 0.90:
            v = self.pick(vs, "l")
            if v:
                return (("idx", v, 0) if r.random() < 0.6 else ("pop", v)), "?"
        if w < 0.94:
            a, k = self.x(vs, d - 1)
            return ("cond", r.random() < 0.5, a, self.x(vs, d - 1)[0]), "?"
        if w < 0.97:
            return ("or", ("undef",) if r.random() < 0.5 else self.x(vs, d - 1)[0], self.x(vs, d - 1)[0]), "?"
        return ("undef",), "?"

    def fn(self, vs, d):
        r = self.r
        ps_ = [self.name() for _ in range(r.randint(0, 2))]
        loc = dict(vs)
        for p in ps_:
            loc[p] = "?"
        body = self.block(loc, d, False, True, r.randint(0, 3))
        if not body or body[-1][0] != "ret":
            body.append(("ret", self.x(loc, 1)[0]))
        return ("fn", ps_, body)

    def block(self, vs, d, loop, infn, n=None):
        r = self.r
        vs = dict(vs)
        out = []
        for _ in range(r.randint(1, 4) if n is None else n):
            out += self.stmt(vs, d, loop, infn)
            if r.random() < 0.35:
                out.append(("mark",))
            if out[-1][0] in ("break", "cont", "ret"):
                break
        return out

    def stmt(self, vs, d, loop, infn):
        r = self.r
        w = r.random()
        if w < 0.22 or not vs:
            n = self.name()
            e, k = self.x(vs)
            vs[n] = k
            return [("let", n, e)]
        if w < 0.34:
            v = self.pick(vs)
            e, k = self.x(vs)
            vs[v] = k if k == vs[v] else "?"
            return [("set", v, e)]
        if w < 0.37 and len(vs) > 1:
            a, b = r.sample(sorted(vs), 2)
            vs[a], vs[b] = vs[b], vs[a]
            return [("swap", a, b)]
        if w < 0.45:
            v = self.pick(vs, "t")
            if v:
                return [("setidx", v, r.choice("abc"), self.x(vs)[0])]
        if w < 0.53:
            v = self.pick(vs, "l")
            if v:
                return [r.choice([("push", v, self.x(vs)[0]), ("push", v, self.x(vs)[0]), ("setidx", v, 0, self.x(vs)[0]), ("clear", v)])]
        if w < 0.57:
            v = self.pick(vs, "t")
            if v:
                return [r.choice([("remove", v, r.choice("abc")), ("clear", v)])]
        if w < 0.63:
            e, k = self.x(vs)
            if e[0] in ("call", "new", "pop"):
                return [("expr", e)]
            return [("probe", e)]
        if w < 0.70:
            return [("probe", ("var", self.pick(vs)))]
        if w < 0.75 and d > 0:
            return [("if", r.random() < 0.6, self.block(vs, d - 1, loop, infn), self.block(vs, d - 1, loop, infn))]
        if w < 0.81 and d > 0:
            v = self.pick(vs, "l")
            if v:
                n = self.name()
                return [("forin", n, v, self.block({**vs, n: "u"}, d - 1, True, infn))]
        if w < 0.85 and d > 0:
            n = self.name()
            return [("times", n, r.randint(0, 3), self.block(vs, d - 1, True, infn))]
        if w < 0.88 and d > 0:
            a, b = self.name(), self.name()
            return [("match", self.x(vs, 2, "l")[0], a, b, self.block({**vs, a: "u", b: "u"}, d - 1, loop, infn), self.block(vs, d - 1, loop, infn))]
        if w < 0.92 and d > 0:
            n = self.name()
            f = self.fn(vs, d - 1)
            vs[n] = "f"
            return [("fndecl", n, f[1], f[2])]
        if w < 0.95 and (loop or infn):
            if infn and r.random() < 0.5:
                return [("ret", self.x(vs, 1)[0])]
            if loop:
                return [(r.choice(["break", "cont"]),)]
        if w < 0.95 + self.fail:
            return [("fail", r.choice(FAILS))]
        return [("mark",)]

    def program(self):
        out, vs = [], {}
        for _ in range(self.r.randint(4, 14)):
            out += self.stmt(vs, 3, False, False)
            if self.r.random() < 0.6:
                out.append(("mark",))
        return out


def expect(body):
    """(events, failed, number made, ids never released, containers never released), or None."""
    gc.disable()
    LIVE[0] = 0
    sh = Shadow()
    failed = False
    try:
        sh.block(body, {})
    except Fail as e:
        failed = True
        e.__traceback__ = None
    except (Stop, RecursionError):
        return None
    log = sorted(sh.log)
    events, made = sh.out, sh.made
    gone = set(log)
    for k, v in events:
        if k == "mark":
            gone.update(v)
    res = events, failed, made, set(range(made)) - gone, LIVE[0]
    del sh.log[:]
    sh = None
    gc.collect()
    return res
