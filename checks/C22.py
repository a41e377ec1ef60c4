"""C22: host functions and scripts exchange arguments, results, errors and globals exactly."""
import random
from lib import api, check, diff, work, yaslref as R
from lib.api import V

CODES = [2, 5, 6, 7, 10]


def value(v):
    """The shadow of a model value."""
    t = type(v)
    if v is None:
        return V("undef")
    if t is bool:
        return V("bool", int(v))
    if t is int:
        return V("int", v)
    if t is float:
        return V("float", v)
    if t is bytes:
        return V("str", v)
    if t is R.YList:
        return V("list", v)
    if t is R.YTable:
        return V("table", v)
    if t in (R.Closure, R.Builtin):
        return V("cfn", None)
    raise R.Unspec("kind")


class Host:
    """The model of harness/api.c's commands as they run inside a host function."""

    def __init__(self, body):
        self.body = body

    def emit(self, I, s):
        I.out.append(s.encode() + b"\n")
        I.outlen += len(s)
        if I.outlen > 200000:
            raise R.Unspec("size")

    def run(self, I, args, vfixed=None):
        st = list(args)
        if vfixed is not None:
            while len(st) < vfixed:
                st.append(None)
            nv = len(st) - vfixed
            st.insert(vfixed, nv)
        last = 0
        L = I.opline
        for line in self.body:
            t = line.split(" ")
            c = t[0]
            if c == "seen":
                self.emit(I, api.seen(int(t[1]), value(st[int(t[1])])))
            elif c == "see":
                self.emit(I, api.see(value(st[-1])))
            elif c == "vseen":
                self.emit(I, "vargs %d" % nv)
                for i, v in enumerate(st):
                    if i != vfixed:
                        self.emit(I, api.seen(i, value(v)))
            elif c == "int":
                st.append(int(t[1]))
            elif c == "float":
                import struct
                st.append(struct.unpack("<d", struct.pack("<Q", int(t[1], 16)))[0])
            elif c == "bool":
                st.append(t[1] == "1")
            elif c == "undef":
                st.append(None)
            elif c == "lstr":
                st.append(bytes.fromhex(t[1].replace("-", "")))
            elif c == "list":
                st.append(I.list([]))
            elif c == "table":
                st.append(I.table())
            elif c == "listpush":
                v = st.pop()
                ok = type(st[-1]) is R.YList
                if ok:
                    st[-1].v.append(v)
                self.emit(I, "listpush %d" % (0 if ok else 5))
            elif c == "tableset":
                v, k = st.pop(), st.pop()
                ok = type(st[-1]) is R.YTable and R.tkey(k) is not None
                if v is None or k is None:
                    raise R.Unspec("undef in a table")
                if ok:
                    I.tset(st[-1], k, v)
                self.emit(I, "tableset %d" % (0 if ok else 5))
            elif c == "listget":
                i = int(t[1])
                if type(st[-1]) is not R.YList:
                    self.emit(I, "listget 5")
                    continue
                n = len(st[-1].v)
                if not -n <= i < n:
                    raise R.YErr(R.VAL)
                st.append(st[-1].v[i])
                self.emit(I, "listget 0")
            elif c == "pop":
                st.pop()
            elif c == "dup":
                st.append(st[-1])
            elif c == "len":
                r = I.len(st.pop(), L)
                st.append(r)
            elif c == "call":
                n = int(t[1])
                a = st[len(st) - n:] if n else []
                del st[len(st) - n:]
                f = st.pop()
                res = I.call(I.callable(f, L), a, L)
                st += res
                last = len(res)
                self.emit(I, "call %d" % last)
            elif c == "setg":
                n = t[1].encode()
                if n in I.hostglobals:
                    I.globals[n] = st.pop()
                    self.emit(I, "setg 0")
                else:
                    self.emit(I, "setg 2")
            elif c == "loadg":
                n = t[1].encode()
                if n in I.globals:
                    st.append(I.globals[n])
                    self.emit(I, "loadg 0")
                else:
                    self.emit(I, "loadg 2")
            elif c in ("checkint", "checkfloat", "checkbool", "checkundef"):
                v = value(st[int(t[2])])
                if v.t != c[5:]:
                    raise R.YErr(R.TYPE)
                self.emit(I, c + {"int": lambda: " %d" % v.v, "float": lambda: " " + api.fbits(v.v), "bool": lambda: " %d" % v.v, "undef": lambda: ""}[v.t]())
            elif c == "throw":
                raise R.YErr(int(t[1]))
            elif c == "say":
                self.emit(I, "say " + t[1])
            elif c == "retcall":
                return st[len(st) - last:] if last else []
            elif c == "ret":
                n = int(t[1])
                return st[len(st) - n:] if n else []
            else:
                raise AssertionError(c)
        return []


def prim(r):
    w = r.randrange(6)
    if w == 0:
        return "int %d" % r.choice([0, 1, -1, 7, 255, 2 ** 63 - 1, -2 ** 63, r.randint(-99, 99)])
    if w == 1:
        return "float " + api.fbits(r.choice([0.0, 1.5, -2.25, 1e10, float("inf")]))
    if w == 2:
        return "bool %d" % r.randrange(2)
    if w == 3:
        return "undef"
    return "lstr " + api.hexs(r.choice([b"", b"a", b"xyz", b"q\x00w", b"\xff", b"50%"]))


# statuses and message starts the interpreter itself uses for each kind
MSG = {2: "Error", 5: "TypeError", 6: "DivisionByZeroError", 7: "ValueError", 10: "AssertError"}


def host_body(r, n):
    """Commands of a host function of n parameters (None: variadic after fixed ones)."""
    b = []
    for i in range(n):
        if r.random() < 0.7:
            b.append("seen %d" % i)
    w = r.random()
    if w < 0.3:
        k = r.randint(0, 5)
        b += [prim(r) for _ in range(k)]
        b.append("ret %d" % r.choice([k, k, k, min(k, 1), 0]))
    elif w < 0.45:
        b.append("ret %d" % n)
    elif w < 0.52:
        b.append("throw %d %s" % (lambda c: (c, MSG[c]))(r.choice(CODES)))
    elif w < 0.6 and n:
        c = r.choice(["int", "float", "bool", "undef"])
        b += ["check%s host %d" % (c, r.randrange(n)), "bool 1", "ret 1"]
    elif w < 0.8 and n:
        b.append("call %d" % (n - 1))
        if r.random() < 0.6:
            b.append("retcall")
        else:
            b += [prim(r), "ret 1"]
    elif w < 0.88:
        b.append("list")
        for _ in range(r.randint(0, 4)):
            b += [prim(r), "listpush"]
        if r.random() < 0.3:
            b.append("listget %d" % r.randint(-3, 3))
        b.append("ret 1")
    elif w < 0.94:
        b.append("table")
        for _ in range(r.randint(0, 3)):
            b += ["lstr " + api.hexs(r.choice([b"a", b"b", b"k"])), "int %d" % r.randrange(9), "tableset"]
        b.append("ret 1")
    elif n:
        b += ["setg %s" % r.choice(["ga", "gb", "gnone"]), "loadg gmissing", "loadg %s" % r.choice(["ga", "gb"]), "ret 1"]
    else:
        b += ["loadg %s" % r.choice(["ga", "gb"]), "ret 1"]
    return b


class Prog:
    def __init__(self, r, hosts):
        self.r, self.hosts, self.n = r, hosts, 0
        self.vars = []

    def fresh(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def atom(self, d):
        r = self.r
        if self.vars and r.random() < 0.4:
            return r.choice(self.vars)
        if d > 0 and r.random() < 0.3:
            return self.fn(d - 1)
        return r.choice(["1", "-5", "2.5", "true", "undef", "'s'", "''", "[1, 2]", "[]", "{.k: 1}", "ga", "gb", "9223372036854775807", "'x' ~ 'y'"])

    def fn(self, d):
        r = self.r
        save = list(self.vars)
        ps = [self.fresh("p") for _ in range(r.randint(0, 3))]
        self.vars += ps
        w = r.random()
        body = ""
        if w < 0.3:
            body = self.stmt(d)
        if r.random() < 0.85:
            body += "return %s\n" % ", ".join(self.e(d) for _ in range(r.choice([1, 1, 1, 2, 3])))
        elif not body:
            body = "echo 'in'\n"
        self.vars = save
        return "fn(%s) {\n%s}" % (", ".join(ps), body)

    def args(self, d):
        r = self.r
        n = r.randint(0, 4)
        if r.random() < 0.03:
            n = r.choice([15, 16, 17, 31, 32, 33, 34, 40, 63, 64, 65, 100, 126, 127, 128, 129, 130, 150, 200, 254, 255, 256, 257, 300])
            a = [self.atom(0) if r.random() < 0.5 else str(i) for i in range(n)]
            return ", ".join(a)
        a = [self.e(d) for _ in range(n)]
        if n and r.random() < 0.5:
            a[0] = self.fn(d) if r.random() < 0.7 else r.choice(self.hosts)
        return ", ".join(a)

    def call(self, d):
        r = self.r
        f = r.choice(self.hosts)
        w = r.random()
        if w < 0.75:
            return "%s(%s)" % (f, self.args(d - 1))
        if w < 0.85:
            return "hostobj->%s(%s)" % (f, self.args(d - 1))
        if w < 0.92:
            return "%s(%s)" % (f, ", ".join([self.e(d - 1), self.call(d - 1) if d > 1 else "3"]))
        return "(fn(f) { return f(%s); })(%s)" % (self.args(d - 1) if False else "1, 2", f)

    def e(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.4:
            return self.atom(d)
        w = r.random()
        if w < 0.7:
            return self.call(d)
        if w < 0.78:
            return "[%s, %s]" % (self.e(d - 1), self.e(d - 1))
        if w < 0.84:
            return "(%s ?? %s)" % (self.e(d - 1), self.e(d - 1))
        if w < 0.9:
            return "collections.list(%s)" % self.call(d - 1)
        if w < 0.95:
            return "(%s ? %s : %s)" % (self.e(d - 1), self.e(d - 1), self.e(d - 1))
        return "(%s === %s)" % (self.e(d - 1), self.e(d - 1))

    def stmt(self, d):
        r = self.r
        w = r.random()
        if w < 0.3:
            return "%s\n" % self.call(d)
        if w < 0.42:
            s = "let x%d = %s\n" % (self.n + 1, self.e(d))
            self.n += 1
            s = s.replace("let x%d" % self.n, "let " + "x%d" % self.n)
            self.vars.append("x%d" % self.n)
            return s
        if w < 0.52:
            a, b = self.fresh("m"), self.fresh("m")
            s = "let %s, let %s = %s\n" % (a, b, self.call(d))
            self.vars += [a, b]
            return s
        if w < 0.6:
            return "%s = %s\n" % (r.choice(["ga", "gb"]), self.e(d))
        if w < 0.66:
            return "show(%s)\n" % self.call(d)
        if w < 0.72:
            save = list(self.vars)
            i = self.fresh("i")
            self.vars.append(i)
            s = "for %s <- [1, 'two'] {\n%s}\n" % (i, self.stmt(d - 1) if d > 0 else "echo %s\n" % i)
            self.vars = save
            return s
        if w < 0.8:
            return "put%d(%s)\n" % (r.randrange(2), self.fn(d))
        if w < 0.86 and self.vars:
            v = r.choice(self.vars)
            return "%s = %s\n" % (v, r.choice(["1", "'z'", "undef", "[5]", "2.5"])) if not v.startswith("i") else "echo 1\n"
        if w < 0.92:
            return "echo len collections.list(%s)\n" % self.call(d)
        return "if %s {\nga = %s\n}\n" % (self.e(d - 1), self.e(d - 1))


SHOWFN = """fn show(x) {
match x {
list { echo 'list of ' ~ len x; }
table { echo 'table of ' ~ len x; }
str { echo "str #{x}"; }
undef { echo 'undef'; }
bool { echo "bool #{x}"; }
int { echo "int #{x}"; }
float { echo "float #{x}"; }
* { echo 'other'; }
}
}
"""


def build(r):
    hosts, defs, arity = [], [], []
    for i in range(8):
        if r.random() < 0.2:
            fix = r.choice([0, 0, 1, 2])
            n = ~fix
            body = ["vseen %d" % fix]
            w = r.random()
            if w < 0.4:
                k = r.randint(0, 3)
                body += [prim(r) for _ in range(k)] + ["ret %d" % k]
            elif w < 0.6:
                body += ["throw 7 ValueError"] if r.random() < 0.3 else ["ret 0"]
            else:
                body += ["int 1", "ret 1"]
        else:
            n = r.choice([0, 1, 1, 2, 2, 3, 4])
            body = host_body(r, n)
        hosts.append("h%d" % i)
        defs.append(body)
        arity.append(n)
    p = Prog(r, hosts)
    src = SHOWFN + "let hostobj = {%s}\n" % ", ".join(".%s: %s" % (h, h) for h in hosts)
    for _ in range(r.randint(2, 10)):
        src += p.stmt(r.randint(1, 3))
    src += "".join("show(%s)\n" % v for v in p.vars[:6])
    src += "show(ga)\nshow(gb)\n"
    after = []
    for _ in range(r.randint(0, 4)):
        after.append((r.choice(["slot0", "slot1", "h%d" % r.randrange(8)]), [prim(r) for _ in range(r.randint(0, 3))]))
    return src.encode("latin-1"), defs, arity, after


def fns(defs, arity):
    out = []
    for body, n in zip(defs, arity):
        h = Host(body)
        if n < 0:
            out.append(R.Builtin(b"h", -1, lambda I, a, h=h, n=n: h.run(I, a, ~n)))
        else:
            out.append(R.Builtin(b"h", n, lambda I, *a, h=h: h.run(I, list(a))))
    return out


def model(src, defs, arity, after):
    def setup(I):
        for i, b in enumerate(fns(defs, arity)):
            I.globals[b"h%d" % i] = b
        for g in (b"ga", b"gb", b"slot0", b"slot1"):
            I.globals[g] = None
            I.hostglobals.add(g)

        def put(n):
            def f(I, x):
                I.globals[n] = x
                I.out.append(b"setg 0\n")
                return []
            return R.Builtin(n, 1, f)
        I.globals[b"put0"], I.globals[b"put1"] = put(b"slot0"), put(b"slot1")

    def done(I, o):
        I.out.append(b"exec %d\n" % o.code)
        counts = I.stats["hostcalls"] = []
        if o.code == 4:
            return
        for name, args in after:
            f = I.globals[name.encode()]
            I.out.append(b"loadg 0\n")
            I.depth = 0
            vals = Host(args + ["ret %d" % len(args)]).run(I, [])
            try:
                I.opline = 0
                res = I.call(I.callable(f, 0), list(vals), 0)
            except R.YErr as e:
                I.out.append(b"call -%d\n" % e.code)
                counts.append(0)
                continue
            counts.append(len(res))
            I.out.append(b"call %d\n" % len(res))
            for v in reversed(res):
                I.out.append(api.see(value(v)).encode().replace(b" t12", b"") + b"\n")
        I.out.append(b"loadg 0\n" + api.see(value(I.globals[b"ga"])).encode().replace(b" t12", b"") + b"\n")
    return R.run(src, 20000, args=None, setup=setup, after=done)


def script(src, defs, arity, after, results):
    """Commands for the harness; results: number of results of every call made afterwards (from the model)."""
    s = []
    for i, b in enumerate(defs):
        s += ["def %d" % i] + b + ["end"]
    s += ["def 20", "setg slot0", "ret 0", "end", "def 21", "setg slot1", "ret 0", "end"]
    s.append("0 new " + api.hexs(src))
    s.append("0 libs")
    for i, n in enumerate(arity):
        s += ["0 cfn %d %d" % (i, n), "0 initg h%d" % i]
    s += ["0 cfn 20 1", "0 initg put0", "0 cfn 21 1", "0 initg put1"]
    for g in ("ga", "gb", "slot0", "slot1"):
        s += ["0 undef", "0 initg " + g]
    s.append("0 exec")
    if results is not None:
        for (name, args), k in zip(after, results):
            s.append("0 loadg " + name)
            s += ["0 " + a for a in args]
            s.append("0 call %d" % len(args))
            for _ in range(max(k, 0)):
                s += ["0 see", "0 pop"]
        s += ["0 loadg ga", "0 see", "0 pop"]
    s.append("0 del")
    return "\n".join(s) + "\n"


def one(seed):
    r = random.Random(seed)
    src, defs, arity, after = build(r)
    try:
        o = model(src, defs, arity, after)
    except R.Unspec as e:
        return seed, "skip", str(e), b"", b"", {}
    info = {"exit %d" % o.code: 1}
    results = None
    if o.code != 4:
        results = o.stats["hostcalls"]
    else:
        o.out = b"exec 4\n"
    sc = script(src, defs, arity, after, results)
    res = api.run(sc)
    body = sc.encode("latin-1")
    tail = b"\n# ---- source ----\n" + src + b"\n# ---- expected ----\n" + o.out[-2500:] + b"line %s trace %s" % (str(o.line).encode(), str(o.trace).encode()) + \
        b"\n# ---- stdout ----\n" + res.out[-2500:] + b"\n# ---- stderr ----\n" + res.err[-3000:]
    if res.hung:
        return seed, "hang", "no end within the CPU limit", body, tail, info
    if res.timeout or res.oom:
        return seed, "skip", "timeout", b"", b"", {}
    if res.san or res.signal or not res.done:
        return seed, "memory", res.san or "signal %s status %s" % (res.signal, res.code), body, tail, info
    import re
    norm = lambda b: re.sub(rb"^(see fn .*) t1[0-2]$", rb"\1", b, flags=re.M)
    want = b"start\n" + norm(o.out) + b"del 0\n"
    got = R.canon(norm(res.out))
    for k in ("seen", "call", "vargs", "listpush", "check", "setg", "loadg"):
        info["observed " + k] = len(re.findall(rb"^" + k.encode(), got, re.M))
    if got != want:
        return seed, "output", diff.diff_out(want, got), body, tail, info
    if o.code and o.code != 4:
        # everything after the first report belongs to later calls from the host
        errs = res.err.decode("latin-1")
        first = re.match(r"(?s)(.*?\(line \d+\)\n(?:In function call on line \d+\n)*)", errs)
        k, line, tr = R.parse_err((first.group(1) if first else errs).encode("latin-1"))
        kind = o.kind if o.kind else k
        if o.code != 2 and k != kind:
            return seed, "kind", "error kind %s, expected %s" % (k, kind), body, tail, info
        if not o.lines_ok(line, o.trace):
            return seed, "line", "reported on line %s, expected %s" % (line, o.line), body, tail, info
        if not o.lines_ok(line, tr):
            return seed, "trace", "call lines %s, expected %s" % (tr, o.trace), body, tail, info
    if res.blocks:
        return seed, "leak", "%d blocks not released by deleting the state" % res.blocks, body, tail, info
    return seed, "ok", "", body, b"", info


def main(c):
    api.exe()
    n = c.n(4000, 100000)
    for seed, st, detail, body, tail, info in work.pmap(one, ["C22/%d/%d" % (c.seed, i) for i in range(n)], chunk=16):
        for k, v in info.items():
            c.count(k, v)
        if st == "skip":
            c.count("skipped, " + detail.split(":")[0][:30])
            continue
        c.observe(body, True, tail[:0] + body[:800])
        if st != "ok":
            c.violation(seed, "%s: %s" % (st, detail), body + tail)


check.main("C22", "one case = one program and up to four host calls after it, using eight random host functions; every argument, result, error and global both sides saw equal to the reference model's; distinct cases counted", main, 500)
