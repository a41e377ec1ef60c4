"""C19: exhausted interpreter limits end in a reported error, not in damage."""
import re
from lib import dcheck, work

# Limits the properties rely on: a stack of 1024 values, 255 variables per function, 1000 nested
# constructs.  Programs clearly inside must succeed, programs clearly outside must be stopped.
STACK_OK, STACK_OVER = 1000, 1030


def verdict(src, want, out, errpat=None, prefix=None, leaks=False, cpu=20, mode="file", stdin=b""):
    """want: a status or a tuple of acceptable ones; out: exact stdout, or a function of it."""
    def run():
        b = src.encode() if isinstance(src, str) else src
        r = work.server().prog(b, cpu=cpu, mode=mode, stdin=stdin)
        info = {"status %s" % r.code: 1}
        tail = b"\n# ---- expected status %s; got status %s signal %s\n# stdout: %r\n# stderr: %r\n" % (
            str(want).encode(), str(r.code).encode(), str(r.signal).encode(), r.out[-400:], r.err[:600])

        def bad(what, detail):
            return what, detail, b[:20000], info, tail
        if r.san:
            return bad("memory", r.san)
        if r.signal or r.timeout or r.oom or not r.done:
            return bad("died", "signal %s timeout %s" % (r.signal, r.timeout))
        if r.code not in (want if isinstance(want, tuple) else (want,)):
            return bad("status", "exit status %s, expected %s" % (r.code, want))
        if callable(out):
            m = out(r.out)
            if m:
                return bad("output", m)
        elif r.out != (out.encode() if isinstance(out, str) else out):
            return bad("output", "stdout %r, expected %r" % (r.out[-200:], out[-200:]))
        if r.code and not r.err:
            return bad("diagnostic", "no diagnostic for status %d" % r.code)
        if r.code == 11 and not r.err.startswith(b"StackOverflow."):
            return bad("diagnostic", "diagnostic %r" % r.err[:80])
        if errpat and r.code and not re.match(errpat, r.err):
            return bad("diagnostic", "diagnostic %r does not match %r" % (r.err[:300], errpat))
        if r.code == 0 and r.err:
            return bad("diagnostic", "unexpected diagnostic %r" % r.err[:200])
        if leaks and r.blocks:
            return bad("leak", "%d blocks (%d bytes) not released" % (r.blocks, r.bytes))
        return "ok", "", b[:3000], info, b""
    return run


def exact(r):
    """A recursive function whose frames have a known size, called to a random depth."""
    p, l = r.choice([0, 0, 1, 2, 4, 9]), r.choice([0, 1, 3, 7, 30, 100, 200])
    k = 2 + p + l
    inside = r.random() < 0.6
    if inside:
        d = r.choice([0, 1, STACK_OK // k // 2, STACK_OK // k - 1])
    else:
        d = r.choice([STACK_OVER // k + 1, 5000, 100000])
    d = max(d, 0)
    ps = "".join(", p%d" % i for i in range(p))
    args = "".join(", %d" % (i * 3 + 1) for i in range(p))
    ls = "".join("    let v%d = n + %d\n" % (i, i) for i in range(l))
    tot = sum(i * 3 + 1 for i in range(p))
    # every local is read after the call: a call must leave its caller's frame alone
    chk = " + ".join(["0"] + ["(v%d - n)" % i for i in range(l)] + ["p%d" % i for i in range(p)])
    per = sum(range(l)) + tot
    style = r.choice(["fn", "const", "method", "mutual"])
    body = "%s    if n == 0 { return 1000; }\n    let t = %s\n    let s = t + %s\n    return s\n" 
    if style == "fn":
        src = "fn f(n%s) {\n%s    if n == 0 { return 1000; }\n    let s = f(n - 1%s)\n    return s + %s\n}\n" % (ps, ls, args, chk)
        call = "f(%d%s)"
    elif style == "const":
        src = "let f = undef\nf = fn(n%s) {\n%s    if n == 0 { return 1000; }\n    let s = f(n - 1%s)\n    return s + %s\n}\n" % (ps, ls, args, chk)
        call = "f(%d%s)"
    elif style == "method":
        k += 1
        src = "const o = {.f: fn(self, n%s) {\n%s    if n == 0 { return 1000; }\n    let s = self->f(n - 1%s)\n    return s + %s\n}}\n" % (ps, ls, args, chk)
        call = "o->f(%d%s)"
    else:
        one = "fn(n%s) {\n%s    if n == 0 { return 1000; }\n    let s = %%s(n - 1%s)\n    return s + %s\n}\n" % (ps, ls, args, chk)
        src = "let g = undef\nlet f = " + one % "g" + "g = " + one % "f"
        call = "f(%d%s)"
    k += 1  # s
    if inside:
        d = min(d, STACK_OK // k - 2) if d > 1 else min(d, 1)
        d = max(d, 0)
    elif d < STACK_OVER // k + 2:
        d = STACK_OVER // k + 2
    first = src.count("\n") + 2
    src = src + "echo 'before'\n" + "echo %s\necho 'after'\n" % (call % (d, args))
    if inside:
        return verdict(src, 0, "before\n%d\nafter\n" % (1000 + per * d))
    return verdict(src, 11, "before\n", rb"^StackOverflow\. \(line \d+\)\n(In function call on line \d+\n)+$|^StackOverflow\. \(line %d\)\n$" % first)


RECURSE = {
    "closure": "let f = undef\nf = fn(n) { echo n; let a = n; const g = fn() { return a + 1; }; return f(g()); }\nf(0)\n",
    "plus": "fn f(n) { echo n; return 1 + f(n + 1); }\nf(0)\n",
    "args": "fn f(n, a, b) { echo n; return f(n + 1, [a], [b]); }\nf(0, 1, 2)\n",
    "list": "fn f(n) { echo n; return [1, 2, 3, f(n + 1)]; }\nf(0)\n",
    "table": "fn f(n) { echo n; return {.a: 1, .b: f(n + 1)}; }\nf(0)\n",
    "for": "fn f(n) { echo n; for x <- [n] { f(x + 1); }; return 0; }\nf(0)\n",
    "fortab": "fn f(n) { echo n; for x <- {n: 1} { f(x + 1); }; return 0; }\nf(0)\n",
    "while": "fn f(n) { echo n; while true { f(n + 1); }; return 0; }\nf(0)\n",
    "comp": "fn f(n) { echo n; return [f(x + 1) for x <- [n]]; }\nf(0)\n",
    "compin": "fn f(n) { echo n; return 1 + len [f(x + 1) for x <- [n]]; }\nf(0)\n",
    "tcomp": "fn f(n) { echo n; return {x: f(x + 1) for x <- [n]}; }\nf(0)\n",
    "compif": "fn f(n) { echo n; return [x for x <- [n] if f(x + 1)]; }\nf(0)\n",
    "match": "fn f(n) { echo n; match n {\n'a' { return 1; }\nlet x if f(x + 1) == 0 { return 2; }\n* { return 3; }\n}\n}\nf(0)\n",
    "interp": "fn f(n) { echo n; return \"a#{f(n + 1)}b\"; }\nf(0)\n",
    "ternary": "fn f(n) { echo n; return n < 0 ? 1 : f(n + 1); }\nf(0)\n",
    "and": "fn f(n) { echo n; return n >= 0 && f(n + 1); }\nf(0)\n",
    "spread": "fn f(n) { echo n; return [n, n]->spread(), f(n + 1); }\nf(0)\n",
    "multi": "fn f(n) { echo n; let a, let b = n, f(n + 1); return a, b; }\nf(0)\n",
    "method": "const o = {}\no.f = fn(s, n) { echo n; return s->f(n + 1); }\no->f(0)\n",
    "__call": "const m = {}\nlet t = mt.set({}, m)\nm.__call = fn(n) { echo n; return t(n + 1); }\nt(0)\n",
    "__get": "let n = 0\nconst m = {}\nlet t = mt.set({}, m)\nm.__get = fn(s, k) { echo n; n += 1; return s[k]; }\nt.a\n",
    "__set": "let n = 0\nconst m = {}\nlet t = mt.set({}, m)\nm.__set = fn(s, k, v) { echo n; n += 1; s[k] = v; return 0; }\nt.a = 1\n",
    "__add": "let n = 0\nconst m = {}\nlet t = mt.set({}, m)\nm.__add = fn(a, b) { echo n; n += 1; return a + b; }\nlet q = t + 1\n",
    "__neg": "let n = 0\nconst m = {}\nlet t = mt.set({}, m)\nm.__neg = fn(a) { echo n; n += 1; return -a; }\nlet q = -t\n",
    "__len": "let n = 0\nconst m = {}\nlet t = mt.set({}, m)\nm.__len = fn(a) { echo n; n += 1; return len a; }\nlet q = len t\n",
    "__eq": "let n = 0\nconst m = {}\nlet t = mt.set({}, m)\nm.__eq = fn(a, b) { echo n; n += 1; return a == b; }\nlet q = t == t\n",
    "__eq list": "let n = 0\nconst m = {}\nlet t = mt.set({}, m)\nm.__eq = fn(a, b) { echo n; n += 1; return [a] == [b]; }\nlet q = t == t\n",
    "__lt": "let n = 0\nconst m = {}\nlet t = mt.set({}, m)\nm.__lt = fn(a, b) { echo n; n += 1; return a < b; }\nlet q = t < t\n",
    "tostr": "let n = 0\nconst m = {}\nlet t = mt.set({}, m)\nm.tostr = fn(a) { echo n; n += 1; return '' ~ a; }\nlet q = '' ~ t\n",
    "tostr join": "let n = 0\nconst m = {}\nlet t = mt.set({}, m)\nm.tostr = fn(a) { echo n; n += 1; return [a, 1]->join(','); }\nlet q = '' ~ t\n",
    "mutual ops": "let n = 0\nconst m = {}\nlet t = mt.set({}, m)\nm.tostr = fn(a) { echo n; n += 1; return a + 1; }\nm.__add = fn(a, b) { echo n; n += 1; return '' ~ a; }\nlet q = t + 1\n",
}


def seq(r):
    """A counted infinite recursion: prints 0, 1, 2 ... and is then stopped."""
    name = r.choice(sorted(RECURSE))
    src = RECURSE[name]
    wrap = r.random()
    pre = ""
    if wrap < 0.3:
        pre = "".join("let u%d = %d\n" % (i, i) for i in range(r.randint(1, 200)))
    elif wrap < 0.4:
        pre = "let big = [x for x <- 'a'->rep(%d)]\n" % r.choice([10, 800])
    src = pre + src + "echo 'not here'\n"

    def out(o):
        ls = o.split(b"\n")
        if ls[-1] != b"":
            return "output ends in the middle of a line: %r" % ls[-1]
        ls = ls[:-1]
        for i, x in enumerate(ls):
            if x != b"%d" % i:
                return "line %d of the output is %r" % (i, x)
        if len(ls) < 20:
            return "stopped after only %d levels" % len(ls)
    return verdict(src, 11, out)


def slim(r):
    """Calls that need as little of the value stack as possible: the number of frames runs out first."""
    k = r.choice(["fn", "const", "mutual", "cycle", "list", "nested", "upvalue", "method"])
    bound = r.choice([None, None, None, r.choice([1, 50, 400, 900])])
    step = "n += 1; " + ("" if bound is None else "if n >= %d { return 77; }; " % bound)
    say = "echo n; " if r.random() < 0.7 else ""
    form = r.choice(["return {}", "return {}", "{}; return 5", "let a = {}; return a"]).replace("{}", "%s")
    if form.startswith("let") and bound and bound > 300:
        bound, step = 200, "n += 1; if n >= 200 { return 77; }; "
    b = "{ " + step + say + form + "; }"
    if k == "fn":
        src, call = "let n = 0\nfn f() %s\n" % (b % "f()"), "f()"
    elif k == "const":
        src, call = "let n = 0\nlet f = undef\nf = fn() %s\n" % (b % "f()"), "f()"
    elif k == "mutual":
        src, call = "let n = 0\nlet f = undef\nlet g = undef\nf = fn() %s\ng = fn() %s\n" % (b % "g()", b % "f()"), "f()"
    elif k == "cycle":
        m = r.randint(3, 9)
        src = "let n = 0\n" + "".join("let f%d = undef\n" % i for i in range(m)) + "".join("f%d = fn() %s\n" % (i, b % ("f%d()" % ((i + 1) % m))) for i in range(m))
        call = "f0()"
    elif k == "list":
        src, call = "let n = 0\nconst l = [undef]\nl[0] = fn() %s\n" % (b % "l[0]()"), "l[0]()"
    elif k == "nested":
        src, call = "let n = 0\nlet f = undef\nf = fn() { const g = fn() %s; return g(); }\n" % (b % "f()"), "f()"
    elif k == "upvalue":
        src, call = "let n = 0\nfn mk() { let f = undef; f = fn() %s; return f; }\nconst h = mk()\n" % (b % "f()"), "h()"
    else:
        src, call = "let n = 0\nconst o = {}\no.f = fn(s) %s\n" % (b % "s->f()"), "o->f()"
    if r.random() < 0.3:
        src = "".join("let u%d = %d\n" % (i, i) for i in range(r.randint(1, 22))) + src
    if k == "nested" and bound and bound > 200:
        bound = None
        src = src.replace("if n >= 400 { return 77; }; ", "").replace("if n >= 900 { return 77; }; ", "")
    if k in ("method",) and bound and bound > 300:
        bound = None
        src = src.replace("if n >= 400 { return 77; }; ", "").replace("if n >= 900 { return 77; }; ", "")
    src += "echo %s\necho 'end'\n" % call

    def out(o):
        ls = o.split(b"\n")
        if ls[-1] != b"":
            return "output ends in the middle of a line: %r" % ls[-1]
        ls = ls[:-1]
        if bound is not None:
            want = (list(range(1, bound)) if say else [])
            want = [b"%d" % x for x in want] + [b"77" if form.startswith("return") or bound == 1 else b"5" if form.endswith("return 5") else b"77", b"end"]
            return None if ls == want else "output %r, expected %r" % (ls[-4:], want[-4:])
        if not say:
            return None if ls == [] else "output %r" % ls[:3]
        for i, x in enumerate(ls):
            if x != b"%d" % (i + 1):
                return "line %d of the output is %r" % (i, x)
        return None if len(ls) >= 200 else "stopped after only %d levels" % len(ls)
    return verdict(src, 11 if bound is None else 0, out)


def wide(r):
    """Lists, tables and argument lists of n elements."""
    kind = r.choice(["list", "table", "list fn", "set fn", "table fn", "params", "spread", "spread2", "string", "cat", "nested"])
    inside = r.random() < 0.6
    per = {"table": 2, "table fn": 2}.get(kind, 1)
    n = r.choice([0, 1, 127, 128, 129, 255, 256, 257, STACK_OK // per - 20]) if inside else r.choice([STACK_OVER // per + 1, 3000, 20000])
    n = min(n, STACK_OK // per - 20) if inside else n
    if kind == "list":
        src, exp = "let l = [%s]\necho len l\necho l[0]\necho l[-1]\n" % ", ".join(str(i) for i in range(n)), "%d\n0\n%d\n" % (n, n - 1)
    elif kind == "table":
        src, exp = "let t = {%s}\necho len t\necho t[0]\necho t[%d]\n" % (", ".join("%d: %d" % (i, i * 2) for i in range(n)), n - 1), "%d\n0\n%d\n" % (n, n * 2 - 2)
    elif kind == "list fn":
        src, exp = "let l = collections.list(%s)\necho len l\necho l[0]\necho l[-1]\n" % ", ".join(str(i) for i in range(n)), "%d\n0\n%d\n" % (n, n - 1)
    elif kind == "set fn":
        n = max(n, 2)
        src, exp = "let l = collections.set(%s)\necho len l\necho l[0]\necho l[%d]\n" % (", ".join(str(i) for i in range(n)), n), "%d\ntrue\nfalse\n" % n
    elif kind == "table fn":
        src, exp = "let t = collections.table(%s)\necho len t\necho t[0]\necho t[%d]\n" % (", ".join("%d, %d" % (i, i * 2) for i in range(n)), n - 1), "%d\n0\n%d\n" % (n, n * 2 - 2)
    elif kind == "params":
        src, exp = "fn f(a, b) { return a + b; }\necho f(%s)\n" % ", ".join(str(i + 1) for i in range(max(n, 2))), "3\n"
    elif kind == "spread":
        src, exp = "let l = [1 for x <- 'a'->rep(%d)]\nlet m = collections.list(l->spread())\necho len m\n" % n, "%d\n" % n
        if n == 1:
            return verdict(src, 0, exp)
    elif kind == "spread2":
        n = max(n, 1)
        src, exp = "fn f() { let l = [7 for x <- 'a'->rep(%d)]; return l->spread(); }\necho len collections.list(f())\necho f()\n" % n, "%d\n7\n" % n
    elif kind == "string":
        n = max(n, 1)
        src, exp = "let s = '%s'\necho len s\n" % ("a" * n), "%d\n" % n
        return verdict(src, 0, exp)
    elif kind == "cat":
        n = max(n % 5000, 2)
        src, exp = "let s = 'a'\nlet t = %s\necho len t\n" % " ~ ".join(["s"] * n), "%d\n" % n
        if STACK_OK < n < STACK_OVER:
            n = STACK_OK
        return verdict(src, (0, 11) if n > STACK_OK else 0, (lambda o: None) if n > STACK_OK else exp)
    else:
        n = max(min(n // 2, 480), 1) if inside else n
        d = n
        src, exp = "let l = %s%s\nlet d = 0\nwhile len l > 0 { l = l[0]; d += 1; }\necho d\n" % ("[" * d, "]" * d), "%d\n" % (d - 1)
        if not inside:
            return verdict(src, (4, 11), "")
        return verdict(src, 0, exp)
    if n == 0 and kind in ("list", "table", "list fn", "table fn"):
        src = src.split("\n")[0] + "\n" + src.split("\n")[1] + "\n"
        exp = "0\n"
    if inside:
        return verdict(src, 0, exp)
    return verdict("echo 'first'\n" + src, 11, "first\n")


def variables(r):
    """Numbers of variables around the limit of 255, with every one holding its own value."""
    kind = r.choice(["file", "fn", "params", "block", "loop", "shadow", "captured", "const", "patterns"])
    n = r.choice([1, 100, 126, 127, 128, 129, 200, 240, 250])
    over = r.random() < 0.3 and kind != "shadow"
    if over:
        n = r.choice([256, 257, 300, 512, 700])
    tot = sum(i * i for i in range(n))
    names = ["v%d" % i for i in range(n)]
    summ = "".join("    s += %s\n" % v for v in names)
    if kind == "file":
        src = "let s = 0\n" + "".join("let v%d = %d\n" % (i, i * i) for i in range(n)) + summ + "echo s\n"
    elif kind == "const":
        src = "let s = 0\n" + "".join("const v%d = %d\n" % (i, i * i) for i in range(n)) + summ + "echo s\n"
    elif kind == "fn":
        src = "fn f() {\nlet s = 0\n" + "".join("let v%d = %d\n" % (i, i * i) for i in range(n)) + summ + "return s\n}\necho f()\n"
    elif kind == "params":
        src = "fn f(%s) {\nlet s = 0\n%sreturn s\n}\necho f(%s)\n" % (", ".join(names), summ, ", ".join(str(i * i) for i in range(n)))
    elif kind == "block":
        src = "let s = 0\n" + "".join("if true {\nlet v%d = %d\n" % (i, i * i) for i in range(n)) + summ + "}\n" * n + "echo s\n"
    elif kind == "loop":
        src = "let s = 0\n" + "".join("for v%d <- [%d] {\n" % (i, i * i) for i in range(min(n, 240) if not over else n)) + "".join("    s += %s\n" % v for v in (names if over else names[:240])) + "}\n" * (n if over else min(n, 240)) + "echo s\n"
        if not over:
            tot = sum(i * i for i in range(min(n, 240)))
    elif kind == "shadow":
        n = r.choice([100, 500, 990])
        tot = sum(range(n))
        src = "let s = 0\n" + "".join("if true {\nlet w = %d\ns += w\n" % i for i in range(min(n, 200))) + "}\n" * min(n, 200) + "".join("if true { let w = %d; s += w; }\n" % i for i in range(200, n)) + "echo s\n"
    elif kind == "captured":
        src = "let s = 0\n" + "".join("let v%d = %d\n" % (i, i * i) for i in range(n)) + "fn f() {\n" + summ + "return s\n}\necho f()\n"
    elif kind == "patterns":
        src = "let s = 0\nmatch [%s] {\n[%s] {\n%s}\n}\necho s\n" % (", ".join(str(i * i) for i in range(n)), ", ".join("let " + v for v in names), summ)
    if over:
        return verdict("echo 1\n" + src, 4, "")
    return verdict(src, 0, "%d\n" % tot)


NEST = {
    "if": ("if true {\n", "echo 7\n", "}\n", "7\n"),
    "else": ("if false {} else {\n", "echo 7\n", "}\n", "7\n"),
    "while": ("while true {\n", "echo 7\n", "break\n}\n", "7\n"),
    "paren": ("(", "7", ")", "7\n"),
    "not": ("!(", "true", ")", None),
    "plus": ("1 + (", "0", ")", None),
    "fn": ("(fn() { return ", "7", "; })()", "7\n"),
    "call": ("id(", "7", ")", "7\n"),
    "index": ("[7][0 * ", "0", "]", "7\n"),
    "ternary": ("true ? (", "7", ") : 2", "7\n"),
    "ternary right": ("z ? 1 : ", "7", "", "7\n"),
    "interp": ('"#{', "7", '}"', "7\n"),
    "comp": ("len [1 for x <- [", "7", "]]", "1\n"),
    "match": ("match 1 { 1 {\n", "echo 7\n", "}\n}\n", "7\n"),
    "alt": ("0 | ", "7", "", "7\n"),
}


def nesting(r):
    """Nesting of constructs inside and outside what the compiler supports."""
    k = r.choice(sorted(NEST))
    a, m, b, out = NEST[k]
    inside = r.random() < 0.5
    lim = {"fn": 150, "call": 300, "interp": 100, "comp": 60, "index": 300, "match": 200, "ternary right": 900, "alt": 900}.get(k, 450)
    n = r.choice([1, 5, 50, lim]) if inside else r.choice([30000, 60000, 3000])
    n = min(n, lim) if inside else n
    body = a * n + m + b * n
    head = "fn id(x) { return x; }\nlet z = false\n"
    if k in ("if", "else", "while", "match"):
        src = head + body
    elif k == "alt":
        src = head + "match 7 {\n" + body + " { echo 7; }\n}\n"
    else:
        src = head + "echo " + body + "\n"
    if inside:
        exp = out if out is not None else {"not": "true\n" if n % 2 == 0 else "false\n", "plus": "%d\n" % n}[k]
        return verdict(src, 0, exp)
    if k == "ternary right" and n < 20000:
        return verdict(src, (0, 4), lambda o: None if o in (b"7\n", b"") else "output %r" % o)
    return verdict("echo 1\n" + src, 4, "")


def large(r):
    """Large programs that stay within every limit run to the end."""
    n = r.choice([500, 2000, 6000])
    k = r.choice(["statements", "functions", "strings", "elseif", "arms", "expr", "jump", "lines", "loopbody", "break"])
    if k == "statements":
        src, exp = "let s = 0\n" + "s = s + 1\n" * n + "echo s\n", "%d\n" % n
    elif k == "functions":
        src = "let t = {}\n" + "".join("t[%d] = fn(x) { return x + %d; }\n" % (i, i) for i in range(n)) + "let s = 0\nfor i <- t { s += t[i](1); }\necho s\n"
        exp = "%d\n" % sum(i + 1 for i in range(n))
    elif k == "strings":
        src = "let t = {}\n" + "".join("t['k%d'] = 'v%d'\n" % (i, i) for i in range(n)) + "echo len t\necho t.k%d\necho t.k0\n" % (n - 1)
        exp = "%d\nv%d\nv0\n" % (n, n - 1)
    elif k == "elseif":
        n = min(n, 900)
        q = r.randrange(n)
        src = "let x = %d\nif x == -1 { echo 'a'; }" % q + "".join(" elseif x == %d { echo 'e%d'; }" % (i, i) for i in range(n)) + " else { echo 'none'; }\n"
        return verdict(src, (0, 4), lambda o: None if o in (b"e%d\n" % q, b"") else "output %r" % o)
    elif k == "arms":
        q = r.randrange(n)
        src = "match %d {\n" % q + "".join("%d { echo 'e%d'; }\n" % (i, i) for i in range(n)) + "}\n"
        exp = "e%d\n" % q
    elif k == "expr":
        src, exp = "let x = 1\necho x%s\n" % (" + x" * n), "%d\n" % (n + 1)
    elif k == "jump":
        src = "let x = false\nlet s = 0\nif x {\n" + "s = s + 1000000\n" * n + "} else {\n" + "s = s + 2\n" * n + "}\necho s\n"
        exp = "%d\n" % (2 * n)
    elif k == "loopbody":
        src = "let s = 0\nfor i <- [1, 2, 3] {\n" + "s = s + i\n" * n + "}\necho s\n"
        exp = "%d\n" % (6 * n)
    elif k == "break":
        src = "let s = 0\nlet i = 0\nwhile i < 3 {\ni += 1\nif i == 2 { continue; }\n" + "s = s + i\n" * n + "if s > %d { break; }\n}\necho s\n" % n
        exp = "%d\n" % (4 * n)
    else:
        src, exp = "\n" * n + "echo 1\n" + "\n" * n + "echo 1 // 0\n", "1\n"
        return verdict(src, 6, exp, rb"^DivisionByZeroError[^\n]*\(line %d\)\n$" % (2 * n + 2))
    return verdict(src, 0, exp)


def repl(r):
    """After an overflow the same state is given more source: earlier globals and fresh code still work."""
    parts, exp, n = ["let a = 1", "let l = [1, 2]"], [], 0
    for _ in range(r.randint(1, 4)):
        name = r.choice(["fn f(n) { return 1 + f(n + 1); }; f(0)", "let q = [%s]" % ", ".join("1" * 1 for _ in range(1100)),
                         "fn g(n) { for x <- [n] { g(x + 1); }; return 0; }; g(0)", "fn h(n) { return [h(x + 1) for x <- [n]]; }; h(0)",
                         "const m = {}; let t = mt.set({}, m); m.tostr = fn(a) { return '' ~ a; }; let w = '' ~ t"])
        name = re.sub(r"\b([fgmtqwh])\b", lambda m: m.group(1) + str(n), name)
        n += 1
        parts.append(name)
        parts.append("a += 1; l->push(a)")
        parts.append("echo 'a=' ~ a ~ ' ' ~ l")
    return parts


def repl_case(r):
    parts = repl(r)
    over = sum(1 for p in parts if p.startswith("a += 1"))

    def run():
        src = ("\n".join(parts) + "\n").encode()
        res = work.server().call(["yasl"], stdin=src, cpu=20)
        info = {"repl sessions": 1}
        tail = b"\n# stdout: %r\n# stderr: %r\n" % (res.out[-800:], res.err[-800:])
        if res.san:
            return "memory", res.san, src, info, tail
        if res.signal or res.timeout or res.oom or not res.done:
            return "died", "signal %s" % res.signal, src, info, tail
        want, l = [], [1, 2]
        for i in range(over):
            l.append(i + 2)
            want.append(b"a=%d %s" % (i + 2, str(l).encode()))
        got = [x[x.index(b"a="):] for x in res.out.split(b"\n") if b"a=" in x]
        if got != want:
            return "output", "after overflow: %r, expected %r" % (got, want), src, info, tail
        if res.err.count(b"StackOverflow.") + res.out.count(b"StackOverflow.") != over:
            return "diagnostic", "%d overflows reported, expected %d" % (res.err.count(b"StackOverflow."), over), src, info, tail
        return "ok", "", src, info, b""
    return run


dcheck.main("C19", "one case = one program that approaches or exceeds an interpreter limit in one way, run under ASan+UBSan with a predicted status, output and diagnostic; distinct programs counted",
            {"frames of known size": (400, 6000, exact), "counted recursion": (250, 4000, seq), "one slot per call": (120, 3000, slim), "wide": (250, 4000, wide),
             "variables": (200, 3000, variables), "nesting": (150, 2000, nesting), "large": (60, 800, large),
             "overflow then more source": (60, 1000, repl_case)}, min_cases=300)
