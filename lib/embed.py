"""Puts a program into a context: the same statements, run where slots, literals, code offsets, frames and pending values differ."""
import itertools


def fn(r, s, u):
    ps = r.choice([0, 0, 0, 1, 2, 5])
    a = ", ".join("%sp%d" % (u, i) for i in range(ps))
    v = ", ".join(str(i) for i in range(ps))
    if r.random() < 0.5:
        return "fn %s(%s) {\n" % (u, a), "}\n%s(%s)\n" % (u, v)
    return "const %s = fn(%s) {\n" % (u, a), "}\n%s(%s)\n" % (u, v)


def block(r, s, u):
    k = r.choice(["if", "else", "loop", "while", "match", "for3", "deep"])
    if k == "if":
        return "if true {\n", "}\n"
    if k == "else":
        return "let %s = 0\nif %s == 1 { echo 'no'; } else {\n" % (u, u), "}\n"
    if k == "loop":
        return "for %s <- [1, 2] {\n" % u, "}\n"
    if k == "while":
        return "while true {\n", "break\n}\n"
    if k == "match":
        return "match [1, 'x'] {\n[2, *] { echo 'no'; }\n[let %s, let %sb] {\n" % (u, u), "}\n}\n"
    if k == "for3":
        return "for let %s = 0; %s < 2; %s += 1 {\n" % (u, u, u), "}\n"
    n = r.choice([2, 5, 20])
    return "".join("if true {\nlet %s%d = %d\n" % (u, i, i) for i in range(n)), "echo [%s]\n" % ", ".join("%s%d" % (u, i) for i in range(n)) + "}\n" * n


def literals(r, s, u):
    n = r.choice([120, 127, 128, 130, 250, 255, 256, 300, 600])
    return "let %s = [%s]\n" % (u, ", ".join(r.choice(["%d", "'lit%d'", "%d.5"]) % (100000 + i) for i in range(n))), "echo %s[%d]\n" % (u, r.randrange(n))


def slots(r, s, u):
    n = r.choice([10, 60, 100, 120, 126, 127, 128, 129, 140, 180])
    vs = ["%s%d" % (u, i) for i in range(n)]
    return "".join("let %s = %s\n" % (v, r.choice(["%d", "'%d'", "[%d]"]) % i) for i, v in enumerate(vs)), "echo [%s]\n" % ", ".join(vs)


def code(r, s, u):
    n = r.choice([10, 30, 50, 300, 1200, 2500])
    return "let %s = 0\n" % u + "%s = %s + 1\n" % (u, u) * n, "echo %s\n" % u


def blank(r, s, u):
    return r.choice(["\n" * r.choice([1, 100, 127, 128, 255, 256, 1000, 33000, 66000]), "# comment\n" * r.choice([1, 130, 300]), "/*" + "\n" * r.choice([3, 128, 300]) + "*/ "]), ""


def deep(r, s, u):
    d = r.choice([1, 5, 20, 60])
    e = r.choice(["return %s(n - 1)", "return [%s(n - 1)][0]", "return 1 + %s(n - 1)", "for x <- [0] { return %s(n - 1); }", "let a, let b = n, %s(n - 1); return b"]) % u
    return "fn %s(n) {\nif n > 0 { %s; }\n" % (u, e), "return 0\n}\n%s(%d)\n" % (u, d)


def inside(r, s, u):
    e = r.choice(["echo [1, 'x', %s()]", "echo {.a: [2, %s()]}", "let %sr = 1 + (2 * %%s())\necho %sr" % (u, u), "echo \"<#{%s()}>\"", "echo len [%s() for x <- 'ab']", "echo [x for x <- [1, 2] if %s() == 7]",
                  "echo true && %s() == 7 ? 'y' : 'n'", "echo [[1, 2], [3]][%s() - 7]", "let %sa, let %sb = %%s(), %%s()\necho [%sa, %sb]" % (u, u, u, u), "echo 'abcdefgh'[1:%s()]"])
    return "fn %s() {\n" % u, "return 7\n}\n" + e.replace("%s", u) + "\n"


def called(r, s, u):
    """Run by an operation of the language or the library, not by a call of the script."""
    k, use, res = r.choice([("tostr", "echo %s", "'T'"), ("tostr", "echo '<' ~ %s", "'T'"), ("tostr", "echo [1, %s, 2]->join(',')", "'T'"), ("tostr", "echo \"#{%s}\"", "'T'"), ("tostr", "echo [%s]", "'T'"),
                            ("__len", "echo len %s", "3"), ("__eq", "echo %s == 1", "true"), ("__eq", "echo [0, %s] == [0, %s]", "true"), ("__lt", "echo %s < 1", "false"), ("__add", "echo %s + 1", "4"),
                            ("__neg", "echo -%s", "4"), ("__get", "echo %s.field", "'f'"), ("__get", "echo %s[3]", "'f'"), ("__set", "%s.field = 3", "0"), ("__call", "echo %s(1, 2)", "5"), ("__bor", "echo %s | 2", "5"),
                            ("__eq", "echo %s != 1", "true"), ("__mul", "echo [x * 2 for x <- [%s, 1]]", "9"), ("__lt", "echo %s >= 1", "true")])
    ps = {"tostr": "a", "__len": "a", "__neg": "a", "__set": "a, b, c", "__call": "a, b"}.get(k, "a, b")
    return "const %sm = {}\n%sm.%s = fn(%s) {\n" % (u, u, k, ", ".join(u + p for p in ps.split(", "))), "return %s\n}\nlet %s = mt.set({}, %sm)\n%s\n" % (res, u, u, use.replace("%s", u))


def method(r, s, u):
    return "const %s = {.v: 5}\n%s.run = fn(self%s) {\n" % (u, u, u), "return self%s.v\n}\necho %s->run()\n" % (u, u)


def captured(r, s, u):
    n = r.choice([1, 1, 3, 100, 130])
    return ("fn %s() {\n" % u + "".join("let %sv%d = %d\n" % (u, i, i) for i in range(n)) + "return fn() {\n%sv0 += 1\n" % u,
            "return [%s]\n}\n}\nlet %sf = %s()\necho %sf()\n" % (", ".join("%sv%d" % (u, i) for i in range(n)), u, u, u) + ("echo %sf()\n" % u if r.random() < 0.3 else ""))


ALL = [fn, fn, block, block, literals, slots, code, blank, deep, inside, called, called, method, captured]


def embed(r, src):
    n = itertools.count()
    for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
        a, b = r.choice(ALL)(r, src, "zq%d" % next(n))
        if not src.endswith(b"\n"):
            src += b"\n"
        src = a.encode() + src + b.encode()
    return src


def budget(kw):
    return dict(kw, budget=4 * kw.get("budget", 20000) + 20000, cpu=max(5, kw.get("cpu", 2)))
