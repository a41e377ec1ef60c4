"""C10: sets are mathematical sets; constructors build exactly their arguments."""
from lib import big, dcheck, sessions, vals
from lib.sessions import hot

KEYS = ["0", "1", "2", "3", "-1", "true", "false", "1.0", "2.0", "0.5", "-0.5", "'a'", "'b'", "''", "'1'", "'a\\x00'", "'a\\x00b'", "'true'", "9223372036854775807",
        "(-9223372036854775807 - 1)", "('xay'[1:2])", "('b' ~ '')", "4294967296", "1.5e300", "10", "17", "33"]
DUMP = """fn tag(k) {
 match k {
  int { return 'i '; }
  float { return 'f '; }
  str { return 's '; }
  bool { return 'b '; }
  list { return 'l '; }
  table { return 't '; }
  undef { return 'u '; }
  * { return 'o '; }
 }
}
fn dump(s) {
 let l = s->tolist()
 echo 'len ' ~ len s ~ ' ' ~ len l
 for x <- l { echo '~' ~ tag(x) ~ x ~ s[x]; }
 echo 'end'
}
fn dumpt(t) {
 echo 'table ' ~ len t
 for k <- t { echo '~' ~ tag(k) ~ k ~ tag(t[k]) ~ t[k]; }
 echo 'end'
}
"""


def history(r):
    pool = r.sample(KEYS, r.randint(2, 10))
    w = r.random()
    if w < 0.25:
        pool = [str(i * r.choice([1, 1, 16, 17])) for i in range(r.randint(3, 30))]
    elif w < 0.35:
        pool = ["'k%d'" % i for i in range(r.randint(3, 30))]
    out = [DUMP]
    for v in "stu":
        out.append("let %s = collections.set(%s)\n" % (v, ", ".join(r.choice(pool) for _ in range(r.randint(0, 5)))))
    for _ in range(r.randint(5, 60)):
        a, b, c = r.choice("sstu"), r.choice("stu"), r.choice("stu")
        w = r.random()
        x = r.choice(pool)
        if w < 0.22:
            out.append("%s->add(%s)\n" % (a, x))
        elif w < 0.32:
            out.append("%s->add(%s)->add(%s)\n" % (a, x, r.choice(pool)))
        elif w < 0.46:
            out.append("echo %s->remove(%s)\n" % (a, x) if r.random() < 0.3 else "%s->remove(%s)\n" % (a, x))
        elif w < 0.54:
            out.append("echo %s[%s]\n" % (a, x))
        elif w < 0.72:
            out.append("%s = %s %s %s\n" % (c, a, r.choice(["|", "&", "^", "&^"]), b))
        elif w < 0.75:
            out.append("%s = %s->copy()\n" % (a, b))
        elif w < 0.78:
            out.append("%s = %s\n" % (a, b))
        elif w < 0.8:
            out.append("%s->clear()\n" % a)
        elif w < 0.88:
            out.append("echo [%s]\n" % ", ".join("%s %s %s" % (a, op, b) for op in ["==", "!=", "<", "<=", ">", ">="]))
        elif w < 0.91:
            out.append("echo %s == (%s | %s)\necho (%s & %s) <= %s\necho (%s &^ %s) < %s\n" % (a, a, b, a, b, b, a, b, a))
        elif w < 0.94:
            out.append("%s = collections.set([%s])\n" % (a, ", ".join(r.choice(pool) for _ in range(r.randint(0, 6)))))
        elif w < 0.96:
            out.append("%s = collections.set(%s->tolist()->spread())\n" % (a, b))
        elif w < 0.98:
            out.append("echo len %s\n" % b)
        else:
            out.append("%s ^= %s\n" % (a, b))
        if r.random() < 0.3:
            out.append("dump(%s)\n" % r.choice([a, b, c]))
    out.append("dump(s)\ndump(t)\ndump(u)\n" + "".join("echo [s[%s], t[%s], u[%s]]\n" % (k, k, k) for k in pool))
    return "".join(out).encode()


METHODS = {"add": 1, "remove": 1, "copy": 0, "clear": 0, "tolist": 0, "__get": 1, "__band": 1, "__bor": 1, "__bxor": 1, "__bandnot": 1, "__eq": 1, "__lt": 1, "__le": 1,
           "__gt": 1, "__ge": 1, "__len": 0}


def edges(r):
    def arg():
        w = r.random()
        return r.choice(KEYS) if w < 0.45 else r.choice(["s", "c", "[]", "{}", "[1]", "fn() { return 1; }" if False else "math.abs", "undef"]) if w < 0.65 else vals.val(r)
    k = r.choice([0, 0, 1, 2, 5])
    out = [DUMP, vals.SHOW, "let s = collections.set(%s)\nlet c = s->copy()\n" % ", ".join(r.choice(KEYS) for _ in range(k))]
    for i in range(r.randint(5, 20) if hot(r) else r.randint(1, 4)):
        w = r.random()
        if w < 0.65:
            k = r.choice(sorted(METHODS))
            n = METHODS[k] if r.random() < 0.85 else r.randint(0, 3)
            call = "s->%s(%s)" % (k, ", ".join(arg() for _ in range(n)))
            if k in ("add", "copy", "clear", "__band", "__bor", "__bxor", "__bandnot"):
                out.append("dump(%s)\n" % call)
            elif k == "tolist":
                out.append("for x <- %s { show(x); }\n" % call if r.random() < 0 else "echo len %s\n" % call)
            else:
                out.append("show(%s)\n" % call)
        elif w < 0.75:
            out.append("show(s[%s])\n" % arg())
        elif w < 0.8:
            out.append("s[%s] = %s\n" % (arg(), arg()))
        elif w < 0.9:
            out.append("show(s %s %s)\n" % (r.choice(["|", "&", "^", "&^", "<", ">", "<=", ">=", "==", "!=", "+"]), arg()))
        else:
            out.append("for x <- s { show(x); }\n" if r.random() < 0.5 else "show(%s)\n" % r.choice(["-s", "^s", "!s", "s->nomethod()", "s ?? 1", "s && 1"]))
        out.append("dump(s)\n")
    out.append("dump(c)\n")
    return "".join(out).encode("latin-1")


def construct(r):
    """The constructors against their argument lists, of every length and with every kind of value."""
    def v(mut):
        w = r.random()
        if w < 0.6:
            return r.choice(KEYS)
        if mut and w < 0.9:
            return r.choice(["[1, 2]", "{}", "undef", "[]", "collections.list(1)", "two()", "l->spread()", "none()"])
        return vals.val(r, r.choice(["int", "float", "str", "bool"]))
    out = [DUMP, vals.SHOW, "let l = [%s]\nfn two() {\n return 7, 8\n}\nfn none() {}\n" % ", ".join(r.choice(KEYS) for _ in range(r.randint(0, 4)))]
    for _ in range(3):
        w = r.random()
        n = r.choice([0, 1, 2, 3, 4, 5, 8, 16, 30, 32, 33, 60, 100])
        if w < 0.4:
            out.append("let x%d = collections.list(%s)\necho len x%d\nfor e <- x%d { show(e); }\n" % (len(out), ", ".join(v(1) for _ in range(n)), len(out), len(out)))
        elif w < 0.7:
            xs = []
            for i in range(n):
                xs.append(v(0) if i % 2 == 0 else v(1) if i < n - 1 else v(0))
            xs = [x if ("spread" not in x and "two" not in x) or i == len(xs) - 1 else "5" for i, x in enumerate(xs)]
            out.append("dumpt(collections.table(%s))\n" % ", ".join(xs))
        else:
            out.append("dump(collections.set(%s))\n" % ("[" + ", ".join(v(0) for _ in range(n)) + "]" if r.random() < 0.4 else ", ".join(v(r.random() < 0.03) for _ in range(n))))
    return "".join(out).encode("latin-1")


def churn(r):
    """Long histories of insertion and removal, and laws of the algebra."""
    n = r.choice([5, 20, 60, 150])
    st = r.choice([1, 2, 3, 7, 16, 32, 97, 1024])
    mk = r.choice(["i * %d" % st, "'k' ~ i", "-i * %d" % st, "i * 0.5", "'x'->rep(i)", "i %% 2 == 0 ? i : '' ~ i" % ()])
    p, q = r.randint(1, 6), r.randint(1, 6)
    return (DUMP + "fn key(i) {\n return %s\n}\nlet a = collections.set()\nlet b = collections.set()\nlet na = 0\nlet nb = 0\nlet both = 0\n"
            "for let i = 0; i < %d; i += 1 {\n let ina = i %% %d == 0\n let inb = i %% %d == 0\n if ina { a->add(key(i)); na += 1; }\n if inb { b->add(key(i)); b->add(key(i)); nb += 1; }\n if ina && inb { both += 1; }\n}\n"
            "echo [len a == na, len b == nb, len (a & b) == both, len (a | b) == na + nb - both, len (a ^ b) == na + nb - 2 * both, len (a &^ b) == na - both]\n"
            "echo [(a | b) == (b | a), (a & b) == (b & a), (a ^ b) == ((a &^ b) | (b &^ a)), (a & b) <= a, (a | b) >= b, (a &^ b) < (a | b), a > (a & b), a <= a, a < a]\n"
            "echo [len a, len b, both]\n"
            "for x <- a->tolist() { a->remove(x); a->add(x); }\necho len a == na\nfor x <- (a & b)->tolist() { a->remove(x); }\necho [len a == na - both, (a & b) == collections.set()]\n"
            "for let i = 0; i < %d; i += 1 { if a[key(i)] != (i %% %d == 0 && i %% %d != 0) { echo 'wrong ' ~ i; }; }\n"
            "for let i = 0; i < %d; i += 1 { b->add('t' ~ i); b->remove('t' ~ i); }\necho len b == nb\nlet c = b->copy()\nb->clear()\necho [len b, len c == nb, b->tolist()]\n" % (
                mk, n, p, q, n, p, q, r.randint(1, 100))).encode(), {"budget": 300000, "cpu": 5}


dcheck.main("C10", "distinct histories of set operations and constructor calls whose every result and state equals the reference model's",
            {"histories": (3500, 90000, history), "edges": (3000, 90000, edges), "constructors": (1500, 40000, construct), "churn and laws": (200, 4000, churn), "sessions of edges": (1200, 40000, sessions.tolerant(edges)), "large": (250, 6000, big.sets)})
