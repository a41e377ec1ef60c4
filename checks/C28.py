"""C28: the command runs the source it is given exactly once, with its arguments, and reports the outcome."""
import os, random, re, shutil
from lib import build, check, diff, gen, soup, work, yaslref as R

MARK = b"io.open('mark', 'a')->write('m')"       # an effect that counts executions
MODEL = b"len 'm'"


def weights(r):
    w = {k: r.choice([0, 1, 3, 8]) for k in gen.DEFAULT}
    w.update(echo=6, let=5, fn=4, call=5, block=0)
    return w


def word(r):
    w = r.random()
    if w < 0.3:
        return r.choice([b"", b" ", b"-", b"--", b"-h", b"-e", b"-E", b"-C", b"-V", b"a b", b"'", b'"', b"#{x}", b"%s%n%d", b"*", b"$HOME", b"\\", b"\\n", b"\n", b"a\nb", b"\xff\xfe", b"\x80", b"p.yasl", b"..", b"0", b"-1", b"true", b"undef", b"=", b"~", b"~~x", b"@@", b"\t", b"\r\n"])
    if w < 0.8:
        return bytes(r.choice([r.randint(1, 255), r.randint(33, 126)]) for _ in range(r.randint(1, 12)))
    if w < 0.97:
        return r.choice([b"long", b"x", b"\xe2\x82\xac"]) * r.choice([10, 64, 255, 256, 1000])
    return b"y" * r.choice([4096, 65536, 200000])


NAMES = [b"p.yasl", b"./p.yasl", b"dir/p.yasl", b"dir/../p.yasl", b"a b.yasl", b"-p", b"-e.yasl", b"--", b"-hello", b"%s%n", b"\xff\xfe.yasl", b"noext", b"'", b"e" * 200, b".//p.yasl", b"p\n.yasl", b"-", b"link.yasl"]
SHOW = ["echo len args", "for a <- args {\necho len a\necho a\n}", "echo args", "echo args[0]", "echo args[-1]", "echo args[1]", "echo args[%d]", "echo args[1:]->join('|')", "echo args->join('\\n')", "echo len args->join('')", "args->push('more')\necho len args",
        "args = 5\necho args", "let args2 = args->copy()\nargs->clear()\necho args2", "fn g() {\nreturn args[-1]\n}\necho g()", "echo args[1]->toint()", "echo args[1]->tofloat()", "echo args[1] == args[2]", "echo args->reverse()", "let args = 3", "match args {\n[let a] {\necho 'one'\n}\n[let a, let b] {\necho b\n}\n* {\necho 'many'\n}\n}",
        "echo (args[1] ?? 'none')->toupper()", "for let i = len args; i > 0; i -= 1 {\necho args[i - 1]\n}", "let t = {}\nfor a <- args {\nt[a] = (t[a] ?? 0) + 1\n}\necho t[args[-1]]", "echo [len a for a <- args]"]
ENDS = ["1 // 0", "-'a'", "assert false", "'x'->nope()", "undef.a.b", "throw_", "fn deep(n) {\nreturn deep(n + 1) + 1\n}\ndeep(0)", "[1][9]", "let bad =", "let q = 1\nlet q = 2", "break", "}", "'open", "echo 1; )", "export 5", "const k = 1\nk = 2"]


def program(r, args):
    """Source bytes with a mark at the front, and often one behind."""
    w = r.random()
    t = []
    if args and w < 0.75:
        for _ in range(r.randint(1, 5)):
            s = r.choice(SHOW)
            t.append(s % r.randint(-6, 6) if "%d" in s else s)
    if w > 0.5 or not t:
        t.append(gen.lay(gen.Gen(r, weights(r), budget=r.choice([5, 15, 30]), perr=r.choice([0, 0, 0.02]), depth=2).stmts(r.randint(1, 10))).decode("latin-1").rstrip("\n"))
    if r.random() < 0.35:
        t.append(r.choice(ENDS))
    r.shuffle(t) if r.random() < 0.3 else None
    s = "\n".join(t).encode("latin-1")
    s = MARK + b"\n" + s + b"\n"
    if r.random() < 0.5:
        s += MARK + r.choice([b"\n", b"\n", b";", b"\n# end\n", b""])
    if r.random() < 0.1:
        s = s.rstrip(b"\n")
    return s


def clip(b):
    return b[:300] if len(b) < 400 else b[:300] + b"...(%d bytes)" % len(b)


class Run:
    """One invocation in a directory of its own."""

    def __init__(self, argv, files=(), stdin=b"", prepare=None, cpu=10):
        srv = work.server()
        self.dir = d = os.path.join(srv.dir, "c28")
        os.mkdir(d)
        os.chmod(d, 0o777)
        try:
            os.mkdir(d + "/dir")
            os.chmod(d + "/dir", 0o777)
            for k, v in dict(files).items():
                with open(os.path.join(d.encode(), k), "wb") as f:
                    f.write(v)
            if prepare:
                prepare(d.encode())
            self.res = res = srv.call(argv, stdin, cwd=d, cpu=cpu)
            q = d + "/mark"
            self.marks = len(open(q, "rb").read()) if os.path.exists(q) else 0
            self.same = all(open(os.path.join(d.encode(), k), "rb").read() == v for k, v in dict(files).items() if os.path.isfile(os.path.join(d.encode(), k)) and os.access(os.path.join(d.encode(), k), os.R_OK))
        finally:
            for a, ds, _ in os.walk(d):
                for x in ds:
                    if not os.path.islink(os.path.join(a, x)):
                        os.chmod(os.path.join(a, x), 0o777)
            shutil.rmtree(d)
        self.text = b"argv: " + b" ".join(b"%r" % clip(a if isinstance(a, bytes) else a.encode()) for a in argv) + b"\n" + b"".join(b"#### file %r\n%s\n" % (k, v[:4000]) for k, v in dict(files).items()) + b"#### standard input\n" + stdin[:2000] + b"\n"
        self.tail = b"\n# ---- observed ----\nstatus %s, marks %d\n" % (str(res.code).encode(), self.marks) + res.out[-2000:] + b"\n# stderr\n" + res.err[-2000:]


def outcome(src, budget=20000, **kw):
    src = src.replace(MARK, MODEL)
    try:
        return R.run(src, budget, **kw)
    except R.Unspec as e:
        return str(e)
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            raise
        return "model: %s" % type(e).__name__


def verdict(o, x, src, cyc, last=True):
    res = x.res
    if res.hung:
        return "hang", "no end within the CPU limit"
    if res.timeout or res.oom:
        return "skip", "limit"
    m = diff.mismatch(o, res)
    if m:
        return m
    head, tail = src.startswith(MARK), src.count(MARK) > 1
    lo = 0 if o.code == 4 else 1
    hi = lo + (1 if tail and o.code == 0 else 0)
    if not (x.marks == hi or (tail and o.code not in (0, 4) and x.marks in (1, 2))):
        return "executions", "the source's first statement took effect %d times in all, expected %d (status %d)" % (x.marks, hi, o.code)
    if not x.same:
        return "changed", "the source file changed"
    if res.done and res.blocks and not cyc:
        return "leak", "%d blocks not released" % res.blocks
    return "ok", ""


def modelled(f):
    R.MADE = []
    try:
        o = f()
        return o, R.cyclic(R.MADE)
    finally:
        R.MADE = None


def file(kind, r):
    name = r.choice(NAMES)
    args = [word(r) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 20, 300]))]
    if len(args) == 2 - 1 and name in (b"-e", b"-E", b"-C"):
        args = []
    src = program(r, True)
    o, cyc = modelled(lambda: outcome(src, args=[name] + args))
    if isinstance(o, str):
        return "skip", o, src, {}, b""

    def prepare(d):
        if name == b"link.yasl":
            with open(d + b"/dir/real", "wb") as f:
                f.write(src)
            os.symlink(b"dir/real", d + b"/link.yasl")
    x = Run(["yasl", name] + args, {name: src} if name != b"link.yasl" else {}, b"" if r.random() < 0.7 else b"echo 'from standard input'\n", prepare)
    st, det = verdict(o, x, src, cyc)
    return st, det, x.text + (src if name == b"link.yasl" else b""), {"arguments passed": len(args), "bytes of arguments passed": sum(map(len, args)), "exit %d" % o.code: 1, "bytes of output compared": len(o.out)}, x.tail + b"\n# ---- expected ----\nstatus %d\n" % o.code + o.out[-2000:]


def inline(kind, r):
    """-E and -e"""
    src = program(r, r.random() < 0.1)
    if kind == "-e" and r.random() < 0.6:
        try:
            e = gen.Gen(r, None, budget=10, perr=0.01, depth=2).x(r.choice(["int", "str", "bool", "float", "list", "undef"]), 2).replace("\x01", "").replace("\x02", "; ")
        except Exception:
            e = "1 + 2"
        w = r.random()
        src = (MARK + b"\n" + e.encode("latin-1") if w < 0.4 else src.rstrip(b"\n") + b"\n" + e.encode("latin-1")) + r.choice([b"\n", b";", b" ;\n", b"\n\n", b""])
    if r.random() < 0.03:
        src = r.choice([b"", b"\n", b"# nothing\n", b";"])
    src = src.replace(b"\0", b"")
    if kind == "-e":
        o, cyc = modelled(lambda: session([src]))
        o = o if isinstance(o, str) else o[0]
    else:
        o, cyc = modelled(lambda: outcome(src, args=None))
    if isinstance(o, str):
        return "skip", o, src, {}, b""
    x = Run(["yasl", kind, src], {}, b"" if r.random() < 0.7 else b"echo 'from standard input'\n")
    if not src.startswith(MARK):
        st, det = ("hang", "no end within the CPU limit") if x.res.hung else ("skip", "limit") if x.res.timeout or x.res.oom else diff.mismatch(o, x.res) or ("ok", "")
    else:
        st, det = verdict(o, x, src, cyc)
    return st, det, x.text, {"exit %d" % o.code: 1, "bytes of output compared": len(o.out), "final expressions printed": int(kind == "-e" and o.code == 0 and echoes(src))}, x.tail + b"\n# ---- expected ----\nstatus %d\n" % o.code + o.out[-2000:]


def echoes(src):
    st = R.parse(src.replace(MARK, MODEL))
    return bool(st) and st[-1].t == "exprstmt"


class Quit(Exception):
    pass


def session(srcs, quit=False):
    """Outcomes of interactive pieces; shorter when the session was ended."""
    def setup(I):
        if quit:
            def f(*a):
                raise Quit()
            I.globals[b"quit"] = R.Builtin("quit", 0, f)
    res = []
    try:
        for rev in R.ORDERS:
            s = R.Session(20000, rev, setup)
            os_ = []
            for p in srcs:
                n = len(s.I.out)
                try:
                    os_.append(s.piece(p.replace(MARK, MODEL), True))
                except Quit:
                    os_.append(b"".join(s.I.out[n:]))
                    break
            res.append(os_)
            if not s.I.ordered:
                break
    except R.Unspec as e:
        return str(e)
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            raise
        return "model: %s" % type(e).__name__
    ws = [[o if isinstance(o, bytes) else (R.canon(o.out),) + tuple(o.structure()[2:]) + (o.code,) for o in os_] for os_ in res]
    if any(w != ws[0] for w in ws):
        return "order"
    for o in res[0]:
        if not isinstance(o, bytes):
            o.out = R.canon(o.out)
    return res[0]


QUIT = [b"quit()", b"quit()", b"quit();", b"echo 'bye'; quit()", b"quit(); echo 'not reached'", b"let q%d = quit; q%d()", b"[quit][0]()", b"fn e%d() { return quit(); }; echo e%d()", b"quit(1)", b"echo quit", b"let quit = 3", b"quit", b"if true { quit(); }", b"for x <- [1, 2] { echo x; if x == 2 { quit(); }; }",
        b"quit = 5", b"undef ?? quit()", b"true || quit()", b"[1]->sort(quit)", b"echo 'a' ~ quit()", b"quit() + 1", b"{.q: quit}.q()", b"nosuch; quit()", b"quit(", b"[quit() for x <- [1]]", b"-'a'; quit()", b"let z%d = [[1], {}, 'x' ~ 1]; quit()"]


def repl(kind, r):
    ps = []
    for i in range(r.randint(0, 10)):
        w = r.random()
        if w < 0.3:
            p = r.choice(QUIT).replace(b"%d", b"%d" % i)
        elif w < 0.45:
            p = MARK
        elif w < 0.55:
            p = r.choice([b"", b" ", b"# c", b"-'a'", b"let a%d = 1" % i, b"echo (", b"'\xff'", b"a%d" % r.randint(0, 9), b"echo 'x'", b"args", b"len args"])
        else:
            t = gen.Gen(r, weights(r), budget=8, perr=0.02, depth=1)
            p = t.stmt().replace("\x01", "").replace("\x02", "; ").encode("latin-1")
        if b"\n" not in p:
            ps.append(p)
    o, cyc = modelled(lambda: session([p + b"\n" for p in ps], True))
    src = b"\n".join(ps)
    if isinstance(o, str):
        return "skip", o, src, {}, b""
    lines = b"".join(p + b"\n" for p in ps)
    x = Run(["yasl"], {}, lines)
    res = x.res
    ended = len(o) and isinstance(o[-1], bytes)
    info = {"lines given to the interactive mode": len(ps), "interactive sessions ended by quit()": int(bool(ended)), "bytes of output compared": len(res.out)}
    if res.hung:
        return "hang", "no end within the CPU limit", x.text, info, x.tail
    if res.timeout or res.oom:
        return "skip", "limit", src, {}, b""
    if res.san:
        return "memory", res.san, x.text, info, x.tail
    if res.code != 0:
        return "status", "the interactive mode ended with %s" % res.code, x.text, info, x.tail
    head, sep, rest = res.out.partition(b"yasl> ")
    if not sep:
        return "output", "no prompt", x.text, info, x.tail
    for i, y in enumerate(o):
        want = y if isinstance(y, bytes) else y.out
        if b"~" in want:
            return "skip", "order", src, {}, b""
        if not rest.startswith(want):
            return "output", "line %d: printed %r, expected %r" % (i + 1, rest[:200], want[:200]), x.text, info, x.tail
        rest = rest[len(want):]
        if isinstance(y, bytes):
            break
        if not rest.startswith(b"yasl> "):
            return "output", "line %d: %r follows its output" % (i + 1, rest[:100]), x.text, info, x.tail
        rest = rest[6:]
    if rest:
        return "output", "%r after the end" % rest[:100], x.text, info, x.tail
    ran = sum(p == MARK for p, y in zip(ps, o) if not isinstance(y, bytes))
    if x.marks != ran:
        return "executions", "%d effects of %d lines" % (x.marks, ran), x.text, info, x.tail
    if not ended and res.done and res.blocks and not cyc:
        return "leak", "%d blocks not released" % res.blocks, x.text, info, x.tail
    return "ok", "", x.text, info, b""


ENDLESS = [b"while true {\n}\n", b"for let i = 0; i >= 0; i = 0 {\n}\n", b"fn f() {\nreturn f()\n}\nwhile true {\nf()\n}\n", b"echo io.stdin->read('a')\nwhile true {\n}\n"]


def only(kind, r):
    """-C runs nothing."""
    name = r.choice(NAMES[:-1])
    w = r.random()
    if w < 0.6:
        src = program(r, True)
    elif w < 0.7:
        src = MARK + b"\n" + r.choice(ENDLESS)
    elif w < 0.85:
        src = MARK + b"\n" + r.choice([b"require('nosuch')\n", b"export 5\n", b"-'a'\n", b"assert false\n", b"1 // 0\n", b"undef.x\n", b"args[99]\n", b"io.stdout->write('x')\nio.stderr->write('y')\n", b"1 // 0 + 'a' * 5 ** []\n", b"let a = 1 % 0\n", b"-'lit'\n", b"'a' + 1\n", b"echo 'x'->rep(1 << 40)\n"])
    else:
        src = r.choice([b"", b"\n", b"# c\n", b"let x = 1", b"'", b"\0", b"\xff", b"fn f(", b"x = 1\n", b"const c = 1\nc = 2\n", b"break\n", b"/*"])
    o = None
    try:
        I = R.Interp(1000, args=[name])
        R.Compiler(I).program(R.parse(src.replace(MARK, MODEL)))
        code = 0
    except R.Reject:
        code = 4
    except R.Unspec as e:
        return "skip", str(e), src, {}, b""
    except RecursionError:
        return "skip", "nesting", src, {}, b""
    x = Run(["yasl", "-C", name], {name: src}, b"echo 'from standard input'\n" if r.random() < 0.3 else b"")
    res = x.res
    info = {"sources only checked": 1, "exit %d" % code: 1}
    st, det = "ok", ""
    if res.san:
        st, det = "memory", res.san
    elif res.oom:
        st, det = "skip", "limit"
    elif res.timeout:
        st, det = "executions", "no end within the CPU limit"
    elif res.code != code:
        st, det = "status", "status %s, expected %d" % (res.code, code)
    elif x.marks:
        st, det = "executions", "the source was executed"
    elif res.out:
        st, det = "output", "printed %r" % res.out[:100]
    elif bool(res.err.strip()) != (code != 0):
        st, det = "diagnostic", "status %d, diagnostics %r" % (code, res.err[:200])
    elif not x.same:
        st, det = "changed", "the source file changed"
    elif res.done and res.blocks:
        st, det = "leak", "%d blocks not released" % res.blocks
    return st, det, x.text, info, x.tail


def broken(kind, r):
    """Nothing that can be run: a diagnostic, a failure status, no execution."""
    good = MARK + b"\necho 'ran'\n"
    files, prep = {b"p.yasl": good, b"locked": good}, None
    more = [word(r) for _ in range(r.choice([0, 0, 1, 2, 5]))]

    def prepare(d):
        os.chmod(d + b"/locked", 0)
        os.symlink(b"nowhere", d + b"/dangling")
        os.symlink(b"loop", d + b"/loop")
        os.mkdir(d + b"/closed")
        with open(d + b"/closed/p.yasl", "wb") as f:
            f.write(good)
        os.chmod(d + b"/closed", 0)
    bad = r.choice([b"missing", b"missing.yasl", b"nodir/p.yasl", b"p.yasl/x", b"locked", b"dangling", b"loop", b"closed/p.yasl", b"n" * 300, b"x/" * 3000, b"", b"p.yas", b"P.yasl", b" p.yasl", b"%s%s%s%n", b"dir", b".", b"/"])
    w = r.random()
    if w < 0.4:
        argv = [bad] + more
    elif w < 0.55:
        argv = [b"-C", bad]
    elif w < 0.75:
        argv = [r.choice([b"-e", b"-E", b"-C"])] + r.choice([[], [good, b"x"], [b"p.yasl", b"x"], [b"p.yasl", b"-h"], [good, b""]])
    elif w < 0.9:
        argv = r.choice([[b"-h", b"x"], [b"-V", b"x"], [b"-V", b"p.yasl"], [b"-h", b"-V"], [b"-h", b""], [b"-V", b"-h", b"p.yasl"]])
    else:
        argv = [r.choice([b"-x", b"--help", b"--version", b"-H", b"-v", b"-c", b"-b", b"-ee", b"-Ce", b"-", b"--", b"-hV", b"-E" + good, b"-e1;"])] + r.choice([[], [], [good], [b"p.yasl"], [b"p.yasl", b"x"]])
    x = Run(["yasl"] + argv, files, good if r.random() < 0.5 else b"", prepare)
    res = x.res
    st, det = "ok", ""
    if res.san:
        st, det = "memory", res.san
    elif res.timeout or res.oom:
        st, det = "hang", "no end"
    elif not res.code:
        st, det = "status", "status %s of what cannot be run" % res.code
    elif x.marks or b"ran" in res.out:
        st, det = "executions", "something was executed"
    elif not (res.out.strip() or res.err.strip()):
        st, det = "diagnostic", "no diagnostic"
    return st, det, x.text, {"invocations that cannot be run": 1}, x.tail


def about(kind, r):
    """-h and -V"""
    stdin = r.choice([b"", b"echo 1\n", b"\xff" * 100])
    h, v = Run(["yasl", "-h"], {}, stdin), Run(["yasl", "-V"], {}, stdin)
    f = Run(["yasl", "p.yasl"], {b"p.yasl": b"echo __VERSION__\n"}, stdin)
    text = h.text
    for x in (h, v, f):
        if x.res.san:
            return "memory", x.res.san, text, {}, x.tail
        if x.res.code != 0 or x.res.err:
            return "status", "status %s, diagnostics %r" % (x.res.code, x.res.err[:100]), x.text, {}, x.tail
    u = h.res.out
    if not u.startswith(b"usage: yasl") or any(not re.search(rb"(?m)^\s*" + o + rb"\b", u) for o in (b"-C", b"-e", b"-E", b"-h", b"-V")) or not re.search(rb"(?m)^\s*input:", u):
        return "usage", "the usage text lacks an option", text, {}, h.tail
    if not re.fullmatch(rb"YASL v?\d+\.\d+\.\d+[^\n]*\n", v.res.out):
        return "version", "version printed as %r" % v.res.out[:100], text, {}, v.tail
    if v.res.out != b"YASL " + f.res.out:
        return "version", "-V says %r, __VERSION__ is %r" % (v.res.out, f.res.out), text, {}, f.tail
    b = Run(["yasl"], {}, b"")
    if b.res.code != 0 or v.res.out.strip() not in b.res.out or not b.res.out.endswith(b"yasl> ") or b.res.out.count(b"yasl> ") != 1:
        return "banner", "an empty session gave %r" % b.res.out[-200:], text, {}, b.tail
    return "ok", "", text + stdin, {}, b""


KINDS = {"file": file, "-E": inline, "-e": inline, "repl": repl, "-C": only, "broken": broken, "about": about}


def one(item):
    kind, seed = item
    return (kind, seed) + KINDS[kind](kind, random.Random(seed))


def main(c):
    build.runner("asan")
    n = {"file": c.n(4000, 100000), "-E": c.n(2000, 50000), "-e": c.n(3500, 80000), "repl": c.n(3000, 60000), "-C": c.n(2500, 60000), "broken": c.n(1000, 20000), "about": c.n(6, 6)}
    items = [(k, "C28/%d/%s/%d" % (c.seed, k, i)) for k in n for i in range(n[k])]
    random.Random(c.seed).shuffle(items)
    for kind, seed, st, det, src, info, tail in work.pmap(one, items):
        for k, v in info.items():
            c.count(k, v)
        if st == "skip":
            c.count("skipped, %s, %s" % (kind, det.split(":")[0][:30]))
            continue
        c.count("invocations, " + kind)
        c.observe(src, True)
        if st != "ok":
            c.violation(src.decode("latin-1"), "%s (%s, %s): %s" % (st, kind, seed, det), src + tail)


check.main("C28", "distinct invocations of the command (argument vector, source, standard input) whose output, status, diagnostics and number of executions equal the reference's", main, 4000)
