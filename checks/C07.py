"""C07: a list behaves as a mutable sequence under every history of operations."""
from lib import big, dcheck, sessions, vals
from lib.sessions import hot

SCAL = ["0", "1", "2", "3", "-1", "1.0", "2.5", "'a'", "'b'", "''", "true", "false", "undef", "'ab'", "9223372036854775807", "math.nan", "-0.0"]


def idx(r, n):
    w = r.random()
    if hot(r) and r.random() < 0.15:
        return r.choice([str(n), str(n + 1), str(-n - 1), "9223372036854775807", "(-9223372036854775807 - 1)", "'a'", "undef", "1.0", "true", "[]"])
    if w < 0.8 and n:
        return str(r.randrange(-n, n))
    if w < 0.96 or True:
        return str(r.choice([0, -1, n, -n, n - 1, n + 1, -n - 1])) if w > 0.985 or not n else str(r.choice([0, -1, n - 1, -n]))


class Hist:
    """A history over three variables that may name the same list; the model is only used to aim indexes."""

    def __init__(self, r, pool):
        self.r, self.pool = r, pool
        self.m = {}
        self.out = []

    def v(self):
        return self.r.choice("lmn")

    def e(self):
        r = self.r
        if r.random() < 0.07:
            return "[%s]" % ", ".join(r.choice(self.pool) for _ in range(r.randint(0, 2)))
        return r.choice(self.pool)

    def lit(self, k):
        return "[" + ", ".join(self.e() for _ in range(k)) + "]"

    def step(self):
        r, m = self.r, self.m
        a, b = self.v(), self.v()
        n = len(m[a])
        p = self.out.append
        w = r.random()
        if w < 0.16:
            k = 1 if r.random() < 0.85 else r.randint(2, 20)
            for _ in range(k):
                p("%s->push(%s)" % (a, self.e()))
                m[a].append(0)
        elif w < 0.26 and (n or hot(r)):
            k = 1 if r.random() < 0.8 else r.randint(1, n + hot(r))
            for _ in range(k):
                p("echo %s->pop()" % a)
                if m[a]:
                    m[a].pop()
        elif w < 0.36:
            i = idx(r, n) if r.random() < 0.8 else str(n)
            p("%s->insert(%s, %s)" % (a, i, self.e()))
            m[a].append(0)
        elif w < 0.46 and n:
            p("%s[%s] = %s" % (a, idx(r, n), self.e()))
        elif w < 0.52 and n:
            p("echo %s[%s]" % (a, idx(r, n)))
        elif w < 0.56:
            p("%s = %s" % (a, self.lit(k := r.randint(0, 5))))
            m[a] = [0] * k
        elif w < 0.60:
            p("%s = %s" % (a, b))
            m[a] = m[b]
        elif w < 0.64:
            p("%s = %s->copy()" % (a, b))
            m[a] = list(m[b])
        elif w < 0.69 and n + len(m[b]) < 80:
            c = self.v()
            p("%s = %s + %s" % (c, a, b))
            m[c] = m[a] + m[b]
        elif w < 0.76 and n:
            i, j = sorted([r.randint(0, n), r.randint(0, n)])
            si = r.choice([str(i), str(i - n)]) if i < n else str(i)
            sj = r.choice([str(j), str(j - n)]) if j < n else str(j)
            if i == 0 and r.random() < 0.4:
                si = ""
            if j == n and r.random() < 0.4:
                sj = ""
            if not si and not sj:
                si = "0"
            c = self.v()
            p("%s = %s[%s:%s]" % (c, a, si, sj))
            m[c] = m[a][i:j]
        elif w < 0.79:
            p("%s->reverse()" % a)
        elif w < 0.81:
            p("%s->clear()" % a)
            del m[a][:]
        elif w < 0.86:
            x = r.choice(self.pool)
            p("echo %s->search(%s)\necho %s->count(%s)" % (a, x, a, x))
        elif w < 0.89:
            p("echo %s->join(%s)" % (a, r.choice(["','", "''", "undef" if r.random() < 0.3 else "' - '"])))
        elif w < 0.92:
            p("echo %s == %s\necho %s != %s\necho %s == %s + []\necho %s === %s" % (a, b, a, b, a, b, a, b))
        elif w < 0.945:
            p("echo collections.list(0, %s->spread())" % a)
            if r.random() < 0.5:
                c = self.v()
                p("%s = [%s->spread()]" % (c, a))
                m[c] = [0] * (1 if n else 1)
        elif w < 0.96:
            p("echo len %s ~ ' ' ~ %s" % (a, a))
        elif w < 0.975:
            c = self.v()
            p("%s = [x for x <- %s if x != %s]" % (c, a, r.choice(self.pool)))
            m[c] = []
        elif w < 0.99 and n and r.random() < 0.5:
            i = idx(r, n)
            p("%s[%s], %s[%s] = %s[%s], %s[%s]" % (a, i, a, "0", a, "0", a, i))
        else:
            p("%s->sort()" % a if r.random() < 0.3 else "echo %s->tostr()" % a)

    def run(self, k):
        self.m = {x: [0] * self.r.randint(0, 3) for x in "lmn"}
        for x in "lmn":
            self.out.append("let %s = %s" % (x, self.lit(len(self.m[x]))))
        for _ in range(k):
            self.step()
            if self.r.random() < 0.6:
                self.out.append("echo l ~ m ~ n")
        self.out.append("echo l\necho m\necho n\necho len l + len m * 1000 + len n * 1000000")
        return "\n".join(self.out).encode() + b"\n"


def history(r):
    pool = r.sample(SCAL, r.randint(2, 6)) if r.random() < 0.8 else ["0", "1", "2"]
    return Hist(r, pool).run(r.randint(5, 60))


METHODS = {"push": 1, "copy": 0, "__add": 1, "__eq": 1, "pop": 0, "__get": 1, "__set": 2, "tostr": 0, "search": 1, "reverse": 0, "clear": 0,
           "join": 1, "sort": 0, "spread": 0, "count": 1, "insert": 2, "__len": 0}


def arg(r, n):
    w = r.random()
    if w < 0.45:
        return str(r.choice([0, 1, -1, n, -n, n - 1, n + 1, -n - 1, -n + 1]))
    if w < 0.6:
        return r.choice(["[]", "[1]", "['a', 'b']", "l"])
    return vals.val(r)


def single(r):
    """One operation at and beyond the edges of its arguments; the list afterwards is printed if the operation succeeded."""
    n = r.choice([0, 0, 1, 2, 3, 7, 8, 9])
    out = [vals.SHOW, "let l = [%s]\nlet c = l->copy()\n" % ", ".join(vals.val(r) if r.random() < 0.3 else str(i) for i in range(n))]
    for _ in range(r.randint(4, 15) if hot(r) else r.randint(1, 3)):
        w = r.random()
        if w < 0.6:
            k = r.choice(sorted(METHODS))
            a = METHODS[k]
            a = a if r.random() < 0.85 else r.randint(0, 4)
            if k == "__set":
                # what a direct call of __set gives is not specified
                out.append("l->__set(%s); ''\n" % ", ".join(arg(r, n) for _ in range(a)))
                continue
            out.append("let r%d = [l->%s(%s)]\necho len r%d\nfor x <- r%d { show(x); }\n" % (len(out), k, ", ".join(arg(r, n) for _ in range(a)), len(out), len(out)))
        elif w < 0.75:
            out.append("show(l[%s])\n" % arg(r, n))
        elif w < 0.85:
            out.append("l[%s] = %s\n" % (arg(r, n), arg(r, n)))
        else:
            out.append("show(l[%s:%s])\n" % (arg(r, n) if r.random() < 0.8 else "", arg(r, n)))
        out.append("echo l\nshow(len l)\n")
    out.append("echo c\n")
    return "".join(out).encode("latin-1")


def sort(r):
    out = [vals.SHOW]
    for i in range(3):
        k = r.choice([0, 1, 2, 3, 5, 8, 17, 40])
        kind = r.random()
        if kind < 0.35:
            es = [str(r.randint(-20, 20)) for _ in range(k)]
        elif kind < 0.5:
            es = [vals.rint(r) for _ in range(k)]
        elif kind < 0.65:
            es = ["%d.%d" % (r.randint(-5, 5), r.choice([0, 25, 5])) if r.random() < 0.5 else str(r.randint(-5, 5)) for _ in range(k)]
            es = [e if e not in ("-0.0",) else "0" for e in es]
        elif kind < 0.95:
            es = [vals.rstr(r, 3, "ab\\") for _ in range(k)]
        else:
            es = [vals.val(r) for _ in range(k)]
        out.append("let l%d = [%s]\nlet k%d = l%d\nl%d->sort()\nfor x <- k%d { show(x); }\nl%d->reverse()\necho l%d\nl%d->sort()\necho k%d->search(%s)\n" % (
            i, ", ".join(es), i, i, i, i, i, i, i, i, r.choice(es) if es else "0"))
    return "".join(out).encode("latin-1")


def runs(r):
    """Sorting lists made of runs: equal values, ascending and descending ones, almost sorted, few different values, of any length."""
    out = []
    for i in range(r.randint(1, 3)):
        strs = r.random() < 0.3
        half = r.random() < 0.3
        f = (lambda e: "'k' ~ (100 + %s)" % e) if strs else (lambda e: "(%s) * 0.5" % e if half else e)
        parts = []
        for _ in range(r.randint(1, 5)):
            n, v, v2 = r.choice([0, 1, 2, 3, 7, 15, 16, 31, 33, 64, 65, 100, 129, 200, 300]), r.randint(0, 9), r.randint(0, 300)
            parts.append(r.choice(["%d:%s" % (n, e) for e in [str(v), str(v), "i + %d" % v2, "%d - i" % v2, "i %% %d" % (v + 1), "(i * 7919) %% %d" % (v2 + 1), "i // %d" % (v + 1), "(i == %d ? %d : %d)" % (n // 2, v2, v), "(i == %d ? %d : %d)" % (max(n - 1, 0), r.choice([0, v2]), v)]]))
        out.append("let l%d = []\n" % i)
        for p in parts:
            n, e = p.split(":", 1)
            out.append("for let i = 0; i < %s; i += 1 {\nl%d->push(%s)\n}\n" % (n, i, f(e)))
        out.append("let k%d = l%d->copy()\nl%d->sort()\necho l%d\necho len l%d\n" % ((i,) * 5))
        out.append(r.choice(["l%d->reverse()\nl%d->sort()\necho l%d\n", "l%d->push(l%d[0])\nl%d->sort()\n", "echo l%d == l%d->copy()\nl%d->sort()\n"]) % (i, i, i) + "echo l%d\nk%d->reverse()\nk%d->sort()\necho k%d == l%d\n" % ((i,) * 5))
    return "".join(out).encode(), {"budget": 200000}


def large(r):
    """Growth and shrinkage over many reallocations."""
    n = r.choice([3, 15, 16, 17, 31, 63, 64, 65, 100, 300])
    k = r.randint(0, n)
    return ("let l = []\nfor let i = 0; i < %d; i += 1 {\nl->push(i * %d)\n}\necho len l\necho l[%d]\necho l[-%d]\n"
            "for let i = 0; i < %d; i += 1 {\nif i %% 7 == 3 { l->insert(i // 2, 'x' ~ i); } else { l->pop(); }\n}\necho l\necho len l\n"
            "let m = l + l\nm->reverse()\necho m[:%d]\nl->clear()\nfor x <- m { l->insert(0, x); }\necho len l\necho l == m\nm->reverse()\necho l == m\n"
            "while len m > %d { m->pop(); }\nfor let i = 0; i < %d; i += 1 { m->push([i, m]); }\necho m->count(0)\necho len m\necho m[-1][0]\n" % (
                n, r.randint(1, 5), r.randrange(n), r.randint(1, n), k, 1, r.randint(0, 3), r.randint(1, 40))).encode()


def nested(r):
    """Equality, printing and aliasing of nested lists."""
    def t(d):
        if d <= 0 or r.random() < 0.3:
            return r.choice(["0", "1", "'a'", "undef", "1.0", "true", "a"])
        return "[" + ", ".join(t(d - 1) for _ in range(r.randint(0, 3))) + "]"
    out = ["let a = [0]\n"]
    for i in range(4):
        x = t(3)
        y = x if r.random() < 0.5 else t(3)
        out.append("let x%d = [%s]\nlet y%d = [%s]\necho x%d == y%d\necho x%d != y%d\necho x%d\n" % (i, x, i, y, i, i, i, i, i))
        out.append("let c%d = x%d->copy()\nlet s%d = x%d[:1]\nlet d%d = x%d + y%d\na->push(%d)\necho c%d\necho s%d\necho d%d\necho x%d == y%d\nx%d[0] = 'new'\necho c%d\necho s%d\necho d%d\n" % ((i,) * 7 + (r.randint(0, 1),) + (i,) * 9))
        if r.random() < 0.3:
            out.append("x%d->push(x%d)\necho x%d\nx%d->push([x%d, [x%d]])\necho x%d\n" % ((i,) * 7))
    return "".join(out).encode()


dcheck.main("C07", "distinct histories of list operations whose every result and state equals the reference model's",
            {"histories": (2500, 80000, history), "edges": (4000, 150000, single), "sorting": (1200, 30000, sort), "sorting runs": (300, 12000, runs),
             "growth": (500, 5000, large), "nested": (1200, 30000, nested), "sessions of histories": (600, 20000, sessions.tolerant(history)),
             "sessions of edges": (1000, 40000, sessions.tolerant(single)), "sessions of sorting": (300, 8000, sessions.tolerant(sort)), "large": (500, 10000, big.lists)})
