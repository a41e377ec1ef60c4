"""C09: a table is a finite map under every history of insertions and removals."""
from lib import big, dcheck, sessions, vals
from lib.sessions import hot

KEYS = ["0", "1", "2", "-1", "true", "false", "1.0", "2.0", "0.5", "-0.5", "'a'", "'b'", "''", "'1'", "'a\\x00'", "'a\\x00b'", "'true'", "9223372036854775807",
        "(-9223372036854775807 - 1)", "('xay'[1:2])", "('b' ~ '')", "4294967296", "'__get'", "'keys'", "1.5e300", "10", "17", "33", "undef"]
VALS = ["0", "1", "2", "'x'", "undef", "true", "[1]", "{}", "2.5", "'y' ~ 'z'"]
DUMP = """fn sh(x) {
 match x {
  int | float | str | bool | undef | list | table { return x; }
  * { return 'function'; }
 }
}
fn tag(k) {
 match k {
  int { return 'i '; }
  float { return 'f '; }
  str { return 's '; }
  bool { return 'b '; }
  * { return 'o '; }
 }
}
fn dump(t) {
 echo 'len ' ~ len t ~ ' ' ~ len t->keys() ~ ' ' ~ len t->values()
 for k <- t { echo '~' ~ tag(k) ~ k ~ ' = ' ~ sh(t[k]); }
 echo 'keys'
 for k <- t->keys() { echo '~' ~ tag(k) ~ k; }
 echo 'values'
 for v <- t->values() { echo '~' ~ sh(v); }
 echo 'end'
}
"""


def key(r, pool):
    return r.choice(pool)


def history(r):
    pool = r.sample(KEYS, r.randint(2, 12))
    if r.random() < 0.3:
        pool = [str(i * r.choice([1, 1, 16, 17, 64])) for i in range(r.randint(3, 30))]
    elif r.random() < 0.2:
        pool = ["'k%d'" % i for i in range(r.randint(3, 30))]
    out = [DUMP]
    for v in "tuw":
        out.append("let %s = {%s}\n" % (v, ", ".join("%s: %s" % (key(r, pool) if r.random() < 0.95 else ".foo", r.choice(VALS)) for _ in range(r.randint(0, 4)))))
    for k in range(r.randint(5, 70)):
        a, b, c = r.choice("ttuw"), r.choice("tuw"), r.choice("tuw")
        w = r.random()
        x = key(r, pool)
        if w < 0.38:
            out.append("%s[%s] = %s\n" % (a, x, r.choice(VALS)))
        elif w < 0.54:
            out.append("%s->remove(%s)\n" % (a, x) if r.random() < 0.6 else "%s[%s] = undef\n" % (a, x))
        elif w < 0.64:
            out.append("echo sh(%s[%s])\n" % (a, x))
        elif w < 0.68:
            out.append("echo sh(%s.%s)\n" % (a, r.choice(["a", "b", "foo", "remove"])))
        elif w < 0.71:
            out.append("%s = %s->copy()\n" % (a, b))
        elif w < 0.74:
            out.append("%s = %s\n" % (a, b))
        elif w < 0.79:
            out.append("%s = %s | %s\n" % (c, a, b))
        elif w < 0.81:
            out.append("%s->clear()\n" % a)
        elif w < 0.86:
            out.append("echo %s == %s\necho %s != %s\necho %s === %s\n" % (a, b, a, b, a, b))
        elif w < 0.9:
            out.append("dump(%s)\n" % a)
        elif w < 0.92:
            out.append("%s = {%s}\n" % (a, ", ".join("%s: %s" % (key(r, pool), r.choice(VALS)) for _ in range(r.randint(0, 3)))))
        elif w < 0.94:
            out.append("%s[%s], %s[%s] = %s[%s], %s\n" % (a, x, b, key(r, pool), c, key(r, pool), r.choice(VALS)))
        elif w < 0.96:
            out.append("%s[%s] ||= %s\n" % (a, x, r.choice(VALS)) if r.random() < 0.3 else "%s[%s] ??= %s\n" % (a, x, r.choice(VALS)))
        elif w < 0.98:
            out.append("%s = {k: v for k, v <- []}\n" % a if False else "%s = {x: %s[x] for x <- %s->keys() if x != %s}\n" % (c, a, a, x))
        else:
            out.append("for k <- %s->keys() { if %s[k] == %s { %s->remove(k); }; }\n" % (a, a, r.choice(["1", "0", "'x'"]), a))
        if r.random() < 0.25:
            out.append("echo len %s\n" % a)
    out.append("dump(t)\ndump(u)\ndump(w)\n" + "".join("echo sh(t[%s])\n" % k for k in pool if k != "undef"))
    return "".join(out).encode()


def churn(r):
    """Long histories: insertion and removal in patterns that fill, empty and refill the map."""
    n = r.choice([5, 20, 50, 100, 200])
    st = r.choice([1, 1, 2, 3, 7, 16, 32, 64, 97, 1024, 65536])
    mkk = r.choice(["i * %d" % st, "'k' ~ i * %d" % st, "-i * %d" % st, "i * 0.5", "i %% 3 == 0 ? i : i %% 3 == 1 ? 's' ~ i : i * 1.0", "''->rep(i) ~ i", "'x'->rep(i)", "i << %d" % r.randint(1, 50)])
    mkk = mkk.replace("%%", "%")
    out = ["let t = {}\nlet s = 0\nfn key(i) {\n return %s\n}\nfn check(lo, hi) {\n let bad = 0\n for let i = 0; i < %d; i += 1 {\n  let want = i >= lo && i < hi ? i : undef\n  if t[key(i)] != want { bad += 1; }\n }\n echo 'bad ' ~ bad ~ ' len ' ~ len t ~ ' want ' ~ (hi - lo) ~ ' ' ~ len t->keys()\n let n = 0\n for k <- t { n += 1; }\n echo n\n}\n" % (mkk, n)]
    lo = hi = 0
    for _ in range(r.randint(2, 5)):
        if r.random() < 0.6 and hi < n:
            x = r.randint(hi, n)
            out.append("for let i = %d; i < %d; i += 1 { t[key(i)] = i; }\n" % (hi, x))
            hi = x
        elif hi > lo:
            x = r.randint(lo, hi)
            out.append("for let i = %d; i < %d; i += 1 { %s; }\n" % (lo, x, r.choice(["t->remove(key(i))", "t[key(i)] = undef"])))
            lo = x
        if lo == hi:
            lo = hi = 0
        out.append("check(%d, %d)\n" % (lo, hi))
    k = r.randint(10, 150)
    out.append("for let i = 0; i < %d; i += 1 { t[key(i + %d)] = i; t->remove(key(i + %d)); }\ncheck(%d, %d)\n" % (k, n, n, lo, hi))
    out.append("let c = t->copy()\nlet b = t | c\necho len c == len t && len b == len t && b == t && c == t\nt->clear()\ncheck(0, 0)\necho len c == %d\n" % (hi - lo))
    return "".join(out).encode(), {"budget": 400000, "cpu": 5}


METHODS = {"remove": 1, "keys": 0, "values": 0, "copy": 0, "clear": 0, "__get": 1, "__set": 2, "__bor": 1, "__eq": 1, "tostr": 0, "__len": 0}


def edges(r):
    out = [vals.SHOW, DUMP, "let t = {%s}\nlet c = t->copy()\n" % ", ".join("%s: %d" % (r.choice(KEYS), i) for i in range(r.choice([0, 0, 1, 2, 5])))]

    def arg():
        w = r.random()
        return r.choice(KEYS) if w < 0.4 else r.choice(["t", "{}", "{1: 2}", "[]", "[1]", "fn() { return 1; }", "echo_" if False else "math.abs", "collections.set(1)"]) if w < 0.6 else vals.val(r)
    for i in range(r.randint(5, 20) if hot(r) else r.randint(1, 4)):
        w = r.random()
        if w < 0.5:
            k = r.choice(sorted(METHODS))
            n = METHODS[k] if r.random() < 0.85 else r.randint(0, 3)
            call = "t->%s(%s)" % (k, ", ".join(arg() for _ in range(n)))
            if k in ("copy", "__bor", "__set", "remove"):
                out.append("dump(%s)\n" % call)
            elif k in ("keys", "values"):
                out.append("for x <- %s { echo '~' ~ x; }\n" % call)
            elif k == "tostr":
                out.append("echo len %s\n" % call)
            else:
                out.append("show(%s)\n" % call)
        elif w < 0.65:
            out.append("t[%s] = %s\n" % (arg(), arg()))
        elif w < 0.8:
            out.append("show(t[%s])\n" % arg())
        elif w < 0.9:
            out.append("dump({%s: %s, %s: %s})\n" % (arg(), arg(), arg(), arg()))
        else:
            out.append("dump(collections.table(%s))\n" % ", ".join(arg() for _ in range(r.randint(0, 5))))
        out.append("dump(t)\n")
    out.append("dump(c)\n")
    return "".join(out).encode("latin-1")


def nested(r):
    """Tables in tables: equality, printing of single-entry tables, aliasing."""
    def t(d):
        if d <= 0 or r.random() < 0.25:
            return r.choice(["0", "1", "'a'", "true", "1.0", "[1]", "a"])
        return "{" + ", ".join("%s: %s" % (r.choice(["1", ".k", "true"]), t(d - 1)) for _ in range(r.choice([0, 1, 1, 1, 2]))) + "}"
    out = [DUMP, "let a = {.z: 0}\n"]
    for i in range(4):
        x = t(4)
        y = x if r.random() < 0.5 else t(3)
        out.append("let x%d = {.k: %s}\nlet y%d = {.k: %s}\necho x%d == y%d\necho x%d != y%d\nlet c%d = x%d->copy()\nlet m%d = x%d | y%d\na[%d] = i%d(x%d)\n" % (i, x, i, y, i, i, i, i, i, i, i, i, i, i, i, i) if False else
                   "let x%d = {.k: %s}\nlet y%d = {.k: %s}\necho x%d == y%d\necho x%d != y%d\nlet c%d = x%d->copy()\nlet m%d = x%d | y%d\nx%d.k = 'new'\necho len c%d ~ (c%d.k == 'new')\necho m%d == y%d\ny%d[x%d.k] = 5\ndump(y%d->copy()->remove(.k))\n" % ((i, x, i, y) + (i,) * 17))
        if r.random() < 0.3:
            out.append("let q%d = {}\nq%d.me = q%d\necho q%d\nlet l%d = [q%d]\nq%d.me = l%d\necho q%d\necho l%d\nq%d.me = 1\n" % ((i,) * 11))
    return "".join(out).encode()


dcheck.main("C09", "distinct histories of table operations whose every result and state equals the reference model's",
            {"histories": (3000, 90000, history), "churn": (250, 6000, churn), "edges": (3500, 100000, edges), "nested": (800, 20000, nested), "sessions of edges": (1200, 40000, sessions.tolerant(edges)), "large": (250, 6000, big.tables)})
