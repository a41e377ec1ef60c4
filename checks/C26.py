"""C26: modules yield their exports, stay separate, and fail as errors of the requiring program."""
import functools, os, random, re, shutil
from lib import api, build, check, gen, modules, work, yaslref as R
from lib.webgen import Web

LIT = ["1", "-7", "1.5", "'str'", "true", "undef", "[1, [2, 'x']]", "{.a: 1, 'b': [2]}", "[]", "{}", "''", "9223372036854775807", "collections.set(1)", "fn() {\nreturn 1\n}"]


class Mods:
    """A directory of modules and a program that uses them."""

    def __init__(self, r):
        self.r = r
        self.files, self.unreadable = {}, set()
        self.kind = {}              # name used in require -> kind of export
        self.n = 0

    def v(self):
        # the same few names everywhere
        return self.r.choice(["v", "w", "x", "s", "a"])

    def fresh(self):
        self.n += 1
        return "h%d" % self.n

    def stuff(self, quiet=False):
        """Statements on the module's own variables, which all have the same names in every file."""
        r = self.r
        t = ["v += %d" % r.randint(1, 9), "w = v * 2", "l->push(v)", "s = s ~ v", "t.k = v", "for i <- [1, 2] {\nv += i\n}", "for let i = 0; i < 3; i += 1 {\nlet y = i\nl->push(y)\n}", (lambda f: "fn %s(n) {\nv += n\nreturn v\n}\nw = %s(%d)" % (f, f, r.randint(1, 5)))(self.fresh()),
             "match v {\n0 {\necho 'zero'\n}\nlet z {\nw = z\n}\n}", "let %s = [y + v for y <- l if y]" % self.fresh(), "if v > 5 {\nlet deep = w\nw = deep + 1\n}", "v, w = w, v", "echo v", "echo l", "echo s ~ w", "echo len t", "collections = undef", "q = 1", "math.extra = v",
             "echo math.extra ?? 'none'"]
        return "\n".join(r.choice(t[:-4] if r.random() < 0.97 else t) for _ in range(r.randint(0, 4)))

    def bad(self):
        r = self.r
        return r.choice(["echo v + 'x'", "assert v == 'no'", "echo [1][9]", "echo 1 // 0", "undef()", "fn dd(n) {\nif n == 0 {\nreturn -'deep'\n}\nreturn dd(n - 1)\n}\ndd(4)", "fn so(n) {\nreturn so(n + 1) + 1\n}\nso(0)", "for x <- 5 {\necho x\n}", "let u =", "echo nosuch", "break",
                         "let v = 3", "if true {\nexport 1\n}", "fn ex() {\nexport 1\n}", "require('nothing here')", "require(5)", "require()", "require('')", "l->pop(); l->pop(); l->pop()", "[v, 'a']->sort()", "export = 3", "export", "'open"])

    def module(self, name, deps):
        r = self.r
        L = ["let v = %d" % r.randint(0, 9), "let w = %d" % r.randint(10, 20), "let l = [%d, %d]" % (r.randint(0, 9), r.randint(0, 9)), "let s = '%s'" % name, "const c = 'const %s'" % name, "let t = {.name: '%s'}" % name]
        r.shuffle(L)
        L = ["# " + "\n" * r.choice([0, 0, 1, 5])] + L
        L.append(self.stuff())
        d = None
        if deps and r.random() < 0.7:
            d = r.choice(deps)
            L.append("let d = require('%s')" % d)
            if r.random() < 0.6:
                L.append(self.use("d", self.kind[d]))
        if r.random() < 0.3:
            L.append(gen.Gen(r, {k: r.choice([0, 1, 3]) for k in gen.DEFAULT}, budget=10, perr=0.01, depth=2).stmts(4).replace("\x01", "").replace("\x02", "\n"))
        if r.random() < 0.3:
            L.append("echo 'loading %s'" % name)
        k = r.choice(["obj", "obj", "fn", "mk", "class", "lit", "hof", "many", "fail", "web", "re" if d else "fn"])
        if k == "obj":
            L.append("fn inc(n) {\nv += n ?? 1\nreturn v\n}")
            L.append("export {.inc: inc, .get: fn() {\nreturn [v, w, s]\n}, .data: l, .name: s, .tab: t, .const: c%s}" % (", .dep: d" if d else ""))
        elif k == "fn":
            L.append("export fn(n) {\nw += v\nv = n ?? v\n%s\nreturn [v, w, c]\n}" % self.stuff())
        elif k == "mk":
            L.append("export fn(n) {\nlet x = n\nreturn fn() {\nv += 1\nx = x ~ v\nreturn x\n}\n}")
        elif k == "class":
            L.append("const M = {.__add: fn(a, b) {\nv += 1\nreturn a.n + b.n + v\n}, .__len: fn(a) {\nreturn w\n}, .tostr: fn(a) {\nreturn s ~ a.n\n}, .bump: fn(a) {\na.n += v\nreturn a\n}}")
            L.append("export fn(n) {\nreturn mt.set({.n: n}, M)\n}")
        elif k == "lit":
            L.append("export " + r.choice(LIT + ["v", "l", "t", "v + w", "s ~ '!'", "[fn() {\nreturn v\n}]", "v > 5 ? l : t"]))
        elif k == "hof":
            L.append("export fn(g, x) {\nv += 1\nreturn [g(x), v, s]\n}")
        elif k == "many":
            L.append("export fn() {\nlet fs = []\nfor i <- [1, 2, 3] {\nlet y = i + v\nfs->push(fn() {\ny += 1\nv += 1\nreturn y * v\n})\n}\nreturn fs\n}")
        elif k == "fail":
            L.append("export fn(n) {\n%s\nreturn v\n}" % "\n".join(["let q = n"] * r.randint(0, 3) + [r.choice(["if n {\nreturn v + 'fails'\n}", "l[99] = n", "assert !n", "return [1, 2][v + 100]"])]))
        elif k == "web":
            p = Web(r).program().split("\nlet n = 0\n")[0]
            L.append(p)
            L.append("export keep")
        elif k == "re":
            L.append("export d")
            k = self.kind[d]
        w = r.random()
        if w < 0.06:
            L.insert(r.randint(1, len(L)), self.bad())
            k = "broken"
        elif w < 0.08:
            L[-1] = "\n".join(x for x in L[-1].split("\n") if not x.startswith("export"))
            k = "broken"
        elif w < 0.1:
            L.insert(-1, "export %s" % r.choice(LIT))
            k = "lit"
        elif w < 0.14:
            L.append(r.choice(["echo 'never'", "let v = 4", "echo -'x'", "export 5", "require('nothing')"]))
        elif w < 0.15:
            L = r.choice([[], ["# empty"], ["export"], ["export 5;"], ["export 1", "export 2"]])
            k = "lit"
        return "\n".join(L) + ("\n" if r.random() < 0.98 else ""), k

    def use(self, h, k):
        return "\n".join(self.use1(h, k) for _ in range(self.r.randint(1, 3)))

    def use1(self, h, k):
        r = self.r
        n = r.randint(0, 9)
        f = self.fresh()
        if k == "obj":
            t = ["echo %s.inc(%d)" % (h, n), "echo %s.get()" % h, "%s.data->push(%d)" % (h, n), "echo %s.data" % h, "echo %s.name ~ %s.const" % (h, h), "%s.extra = %d" % (h, n), "let %s = %s.inc\necho %s(%d)" % (f, h, f, n), "%s.tab.seen = true\necho len %s.tab" % (h, h),
                 "%s.inc = fn(n) {\nv += 1\nreturn 'mine'\n}\necho %s.inc(1)" % (h, h), "echo len %s" % h]
        elif k == "fn":
            t = ["echo %s(%d)" % (h, n), "echo %s()" % h, "let %s = %s(%d)" % (f, h, n), "for i <- [1, 2] {\necho %s(i)\n}" % h, "echo [%s(i) for i <- [3, 4]]" % h]
        elif k == "mk":
            t = ["let %s = %s(%d)\necho %s()\necho %s()" % (f, h, n, f, f), "echo (%s('p'))()" % h, "let %s = [%s(i) for i <- 'ab']\nfor g <- %s {\necho g()\n}" % (f, h, f)]
        elif k == "class":
            t = ["echo %s(%d) + %s(2)" % (h, n, h), "echo len %s(1)" % h, "echo %s(%d)->bump().n" % (h, n), "let %s = %s(%d)\n%s->bump()\necho %s + %s" % (f, h, n, f, f, f), "echo %s(3)->tostr()" % h, "echo %s(1) - 1" % h if r.random() < 0.1 else "echo %s(1).n" % h]
        elif k == "hof":
            t = ["echo %s(fn(y) {\nv += 1\nreturn [y, v, w]\n}, %d)" % (h, n), "fn %s(y) {\nreturn y ~ s\n}\necho %s(%s, 'q')" % (f, h, f), "echo %s(fn(y) {\nreturn y()\n}, fn() {\nw += 1\nreturn w\n})" % h]
        elif k == "many":
            t = ["let %s = %s()\necho %s[0]()\necho %s[1]()\necho %s[0]()" % (f, h, f, f, f), "for g <- %s() {\necho g()\n}" % h]
        elif k == "fail":
            t = ["echo %s(false)" % h, "echo %s(undef)" % h, "fn %s(n) {\nreturn %s(n)\n}\n%s(true)" % (f, h, f)]
        elif k == "web":
            t = ["for g <- %s {\necho g(%d, 2)\nif len %s > 12 {\nbreak\n}\n}" % (h, n, h), "echo %s[%d](1, 2)" % (h, r.randint(0, 3)), "%s->push(fn(a) {\nreturn v\n})" % h, "echo len %s" % h]
        elif k == "so":
            t = ["echo %s.add(%d, %d)" % (h, n, r.randint(0, 9)), "echo %s.next()" % h, "echo %s.va()" % h, "echo %s.va(1, 'x', [%d])" % (h, n), "let %s = %s.three()\necho %s" % (f, h, f), "let %sa, let %sb, let %sc = %s.three()\necho [%sa, %sb, %sc]" % (f, f, f, h, f, f, f), "echo %s.name" % h,
                 "let %s = %s.next\necho %s()\necho %s()" % (f, h, f, f), "%s.name = v\necho %s.name" % (h, h), "echo len %s" % h, "%s.next = fn() {\nv += 1\nreturn v\n}\necho %s.next()" % (h, h), "let %s = [%s.next() for q <- [1, 2]]\necho %s" % (f, h, f),
                 "echo %s.add(%s)" % (h, r.choice(["1", "", "1, 2, 3", "'x', 1", "1, 1.5", "undef, true", "v, w", "9223372036854775807, 1"]))]
        elif k == "sofn":
            t = ["echo %s(%d, %d)" % (h, n, r.randint(0, 9)), "for q <- [1, 2] {\necho %s(q, v)\n}" % h, "let %s = [%s]\necho %s[0](1, 2)" % (f, h, f), "echo %s(1%s)" % (h, r.choice(["", ", 'x'", ", 2, 3"]))]
        else:
            t = ["echo %s" % h, "echo %s ~ ''" % h, "echo [%s] == [%s]" % (h, h), "let %s = %s" % (f, h)]
        return r.choice(t)

    def place(self, name, text):
        """Puts a module on disk; returns the name to require it by."""
        r = self.r
        w = r.random()
        if w < 0.6:
            self.files[name + ".yasl"] = text
            return r.choice([name, name, "./" + name, name + ".yasl", ".//" + name])
        if w < 0.7:
            self.files[name] = text
            return name
        if w < 0.8:
            self.files["sub/deep/%s.yasl" % name] = text
            return r.choice(["sub/deep/", "./sub//deep/", "sub/../sub/deep/"]) + name
        if w < 0.9:
            # both exist
            self.files[name + ".yasl"], self.files[name] = text, "echo 'the wrong one'\nexport 'wrong'\n"
            if r.random() < 0.3:
                self.unreadable.add(name + ".yasl")
                self.files[name], self.files[name + ".yasl"] = text, "echo 'not readable'\nexport 1\n"
            return name
        if w < 0.95:
            self.files[name + ".yasl.yasl"], self.files[name + ".yasl"] = text, "export 'outer'\n"
            return name + ".yasl"
        self.files["odd %s %%s.x.yasl" % name] = text
        return "odd %s %%s.x" % name

    def library(self, i):
        """Puts a shared library on disk; the expression that loads it."""
        r = self.r
        n = r.choice([0, 0, 0, 0, 1, 2, 3, 4, 4, 5, 6, 7, modules.NSO])
        text = (modules.SO + b"%d" % n).decode("latin-1")
        other = r.choice([(modules.SO + b"1").decode("latin-1"), "not a library\n", "", (modules.SO + b"8").decode("latin-1")])
        name = "k%d" % i
        w = r.random()
        if w < 0.4:
            self.files["lib%s.so" % name] = text
        elif w < 0.6:
            self.files[name + ".so"] = text
        elif w < 0.75:
            self.files["lib%s.so" % name] = text
            self.files[name + ".so"] = other
            if r.random() < 0.3:
                self.unreadable.add("lib%s.so" % name)
                self.files[name + ".so"], self.files["lib%s.so" % name] = text, other
        elif w < 0.8:
            self.files["lib%s.so" % name] = other
            self.files[name + ".so"] = text
            if not other.startswith(text[:5]):
                pass
            else:
                n = int(other[len(modules.SO):])
        elif w < 0.9:
            self.files["sub/%s.so" % name] = text
            name = r.choice(["sub/%s", "sub//%s", "./sub/%s", "sub/%s.so", "./sub/../sub/%s.so"]) % name
        else:
            self.files[name] = text
            name = r.choice(["./%s", "./%s", "%s"]) % name
        e = "__require_c__('%s')" % name
        self.kind[e] = {0: "so", 4: "sofn"}.get(n, "lit")
        if r.random() < 0.3:
            # a module that hands the library on
            m = "kw%d" % i
            self.files[m + ".yasl"] = r.choice(["export %s\n", "let v = %s\nexport v\n", "let v = 3\nlet d = %s\nexport {.d: d, .inc: fn(n) {\nv += n\nreturn v\n}, .data: [], .get: fn() {\nreturn d\n}, .name: 'kw', .const: 1, .tab: {}}\n"]) % e
            k = "obj" if ".inc" in self.files[m + ".yasl"] else self.kind[e]
            e = "require('%s')" % m
            self.kind[e] = k
        return e

    def build(self):
        r = self.r
        deps = []
        for i in range(r.randint(1, 5)):
            text, k = self.module("m%d" % i, deps)
            n = self.place("m%d" % i, text)
            self.kind[n] = k
            deps.append(n)
        if r.random() < 0.05:
            # modules that require each other
            self.files["ca.yasl"] = "let v = 1\n%slet o = require('cb')\nexport o\n" % r.choice(["", "echo v\n"])
            self.files["cb.yasl"] = "export require('ca')\n"
            self.kind["ca"] = "lit"
            deps.append("ca")
        libs = [self.library(i) for i in range(r.choice([0, 0, 1, 2]))]
        L = ["let v = 100", "let w = 200", "let l = [300]", "let s = 'main'", "const c = 'main const'", "let t = {.name: 'main'}"]
        hs = []
        for _ in range(r.randint(2, 9)):
            w = r.random()
            if libs and w < 0.2:
                e, h = r.choice(libs), self.fresh()
                L.append(r.choice(["let %s = %s", "const %s = %s", "let %s = undef\nfor i <- [1, 2] {\n%s\n}" % ("%s", h + " = %s"), "let %s = [%s][0]"]) % (h, e))
                hs.append((h, self.kind[e]))
            elif w < 0.35 or not hs:
                d = r.choice(deps)
                h = self.fresh()
                form = r.random()
                if form < 0.7:
                    L.append("%s %s = require('%s')" % (r.choice(["let", "const"]), h, d))
                elif form < 0.8:
                    L.append("fn get%s() {\nlet v = 5\nreturn require('%s')\n}\nlet %s = get%s()" % (h, d, h, h))
                elif form < 0.87:
                    L.append("let %s = [require('%s') for i <- [1, 2]][%d]" % (h, d, r.randint(0, 1)))
                elif form < 0.94:
                    L.append("let %s = undef\nfor i <- [1, 2, 3] {\nlet y = i\n%s = require('%s')\n}" % (h, h, d))
                else:
                    L.append("let %s = require('%s', 5, %s)" % (h, d, h if False else "v"))
                hs.append((h, self.kind[d]))
            elif w < 0.8:
                L.append(self.use(*r.choice(hs)))
            elif w < 0.95:
                L.append(self.stuff())
            else:
                L.append(r.choice(["require('%s')" % r.choice(["gone", "sub", "sub/deep", "m0/", "", ".", "no/such/m", "m0\\0m1", "%s%n"]), "require(undef)", "echo require(%s)" % r.choice(LIT[:3] + ["[]"]), self.bad(), "__require_c__(%s)" % r.choice(LIT[:3] + ["", "'gone'", "'./gone.so'", "'m0'", "'sub/'", "''", "'libm.so.6'", "'./m0.yasl'", "'k\\0', 'x'"]), "let r2 = require\nr2('%s')" % r.choice(deps), "require->x()", "export v", "io.nothing"]))
        L.append("echo [v, w, l, s, c]")
        return [x for x in L if x]


MARK = re.compile(rb"@@(\d+)\n")


def pieces(r, stmts):
    out, cur = [], []
    for x in stmts:
        cur.append(x)
        if r.random() < 0.4:
            out.append("\n".join(cur) + "\n")
            cur = []
    if cur:
        out.append("\n".join(cur) + "\n")
    return [p.encode("latin-1") for p in out]


def session(seed):
    """The statements given to the interactive mode of one state, a few at a time."""
    r = random.Random(seed)
    m = Mods(r)
    stmts = m.build()
    ps = pieces(r, stmts)
    files = {k: v.encode("latin-1") for k, v in m.files.items()}
    text = b"".join(b"#### interactive\n" + p for p in ps) + b"".join(b"\n#### %s%s\n%s" % (k.encode(), b" (not readable)" if k in m.unreadable else b"", v) for k, v in files.items())
    want = []
    R.MADE = []
    try:
        for rev in R.ORDERS:
            s = R.Session(60000, rev, modules.setup(modules.Files(files, m.unreadable)))
            w = []
            for p in ps:
                s.I.errs = []
                o = s.piece(p, True)
                w.append((o.code, R.canon(o.out), modules.expected(o, s.I)))
            want.append(w)
            if not s.I.ordered:
                break
        cyc = R.cyclic(R.MADE)
    except R.Unspec as e:
        return seed, "skip", str(e), {}, text, b""
    except RecursionError:
        return seed, "skip", "recursion", {}, text, b""
    finally:
        R.MADE = None
    if any(w != want[0] for w in want):
        return seed, "skip", "order", {}, text, b""
    s = "0 new -\n0 libs\n"
    for i, p in enumerate(ps):
        s += "0 both %d\n0 reset %s\n0 repl\n" % (i, api.hexs(p))
    s += "0 both 9999\n0 del\n0 blocks\n"
    d = populate(api.server(), files, m.unreadable)
    try:
        res = api.run(s, cpu=10, cwd=d)
    finally:
        shutil.rmtree(d)
    info = {"interactive sources requiring modules": len(ps)}
    tail = b"\n# ---- observed ----\n" + res.out[-3000:] + b"\n# stderr\n" + res.err[-3000:] + b"\n# ---- expected ----\n" + repr(want[0]).encode()[-4000:]
    if res.san:
        return seed, "memory", res.san, info, text, tail
    if res.hung:
        return seed, "hang", "no end within the CPU limit", info, text, tail
    if res.timeout or res.oom:
        return seed, "skip", "limit", {}, text, b""
    o, e = MARK.split(res.out)[2::2], MARK.split(res.err)[2::2]
    if len(o) != len(ps) + 1 or len(e) != len(o):
        return seed, "events", "%d of %d ran" % (len(o) - 1, len(ps)), info, text, tail
    for i, (code, out, errs) in enumerate(want[0]):
        k = re.search(rb"repl (\d+)\n\Z", o[i])
        if not k or int(k.group(1)) != code:
            return seed, "status", "source %d: %s, expected status %d" % (i + 1, k and k.group(1), code), info, text, tail
        if R.canon(o[i][len(b"reset 0\n"):k.start()]) != out:
            return seed, "output", "source %d: output differs" % (i + 1), info, text, tail
        x = modules.errors_differ(errs, modules.observed(e[i]))
        if x:
            return seed, "errors", "source %d: %s" % (i + 1, x), info, text, tail
    b = re.search(rb"blocks (-?\d+)", res.out)
    if b and int(b.group(1)) and not cyc:
        return seed, "leak", "%s blocks not released" % b.group(1).decode(), info, text, tail
    return seed, "ok", "", info, text, b""


@functools.lru_cache(None)
def libraries():
    return build.shared("somod", modules.NSO)


def populate(srv, fs, unreadable):
    d = os.path.join(srv.dir, "c26")
    os.mkdir(d, 0o755)
    for k, v in fs.items():
        p = os.path.join(d, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if v.startswith(modules.SO):
            shutil.copyfile(libraries()[int(v[len(modules.SO):])], p)
        else:
            with open(p, "wb") as f:
                f.write(v)
        os.chmod(p, 0 if k in unreadable else 0o644)
    return d


class Wide:
    """Many modules, deep chains of them, modules with many exports, constants and functions."""

    def __init__(self, r):
        self.r, self.files, self.unreadable = r, {}, set()

    def name(self, i):
        return self.where[i % len(self.where)] % i

    def body(self, i):
        r = self.r
        k = r.choice([1, 3, 12, 40, 120])
        out = ["let base%s = %d" % ("" if r.random() < 0.5 else i % 3, i)]
        b = out[0].split()[1]
        ex = []
        for j in range(k):      # the number of an export tells what kind of thing it is
            w = j % 4
            if w == 0:
                ex.append(".k%d: %s" % (j, r.choice(["%d" % (i * 1000 + j), "'m%d t%d'" % (i, j), "%d.25" % j, "[%d, 'e%d']" % (i, j), b])))
            elif w == 1:
                ex.append(".k%d: fn(a) {\n%s += 1\nreturn [a, %s, 'f%d of %d']\n}" % (j, b, b, j, i))
            elif w == 2:
                out.append("let v%d = %s" % (j, r.choice(["'v%d'" % j, "%d" % j, "{.i: %d}" % i])))
                ex.append(".k%d: v%d" % (j, j))
            elif r.random() < 0.5:
                out.append("fn g%d(a, b) {\n%s = b ?? %s\nreturn a ~ 'g%d' ~ %s\n}" % (j, b, b, j, b))
                ex.append(".k%d: g%d" % (j, j))
            else:
                ex.append(".k%d: (fn() {\nlet c = 0\nreturn fn(a) {\nc += 1\nreturn c + %s\n}\n})()" % (j, b))
        return out, ex

    def build(self):
        r = self.r
        n = r.choice([3, 12, 30, 60, 97])
        self.where = r.sample(["m%d", "dir/m%d", "a/b/c/m%d", "n" * 90 + "%d", "deep/" * 30 + "m%d", "m %d", "M.%d"], r.randint(1, 3))
        chain = r.choice(["no", "line", "tree", "some"])
        use = []
        for i in range(n):
            out, ex = self.body(i)
            on = [i + 1] if chain == "line" else [2 * i + 1, 2 * i + 2] if chain == "tree" else [r.randint(i + 1, n)] if chain == "some" and r.random() < 0.5 else []
            for q, j in enumerate(j for j in on if j < n):
                t = "require('%s')" % self.name(j)
                if r.random() < 0.3:
                    ex.append(".sub%d: fn() {\nreturn %s\n}" % (q, t))
                else:
                    out.insert(r.randint(1, len(out)) if r.random() < 0.5 else 0, "let sub%d = %s" % (q, t))
                    ex.append(".sub%d: %s" % (q, r.choice(["sub%d", "sub%d.k0", "fn() { return sub%d; }"]) % q))
            if r.random() < 0.05:
                out.append(r.choice(["echo 'loading %d'" % i, "echo -'fails'", "assert %d" % i]))
            t = "\n".join(out) + "\nexport {%s}\n" % ", ".join(ex)
            self.files[self.name(i) + (".yasl" if r.random() < 0.9 else "")] = t
        out = ["fn none(a) {\nreturn 'none'\n}"]
        todo = list(range(n)) if chain == "no" else [0, 0] if chain in ("line", "tree") else [0] + [r.randint(0, n - 1) for _ in range(6)]
        r.shuffle(todo)
        keep = []
        for q, i in enumerate(todo[:60]):
            if r.random() < 0.6 and len(keep) < 100:
                out.append("let p%d = require('%s')" % (q, self.name(i)))
                keep.append("p%d" % q)
                x = r.choice(keep)
            else:
                x = "require('%s')" % self.name(i)
            k = r.choice([0, 0, 1, 2, 11, 38, 39, 97, 119, 0])
            out.append(r.choice(["echo len %s" % x, "echo %s.sub0 == undef" % x]) if r.random() < 0.2 else "echo %s.k%d ?? 'none'" % (x, k) if k % 2 == 0 else "echo (%s.k%d ?? none)(%s)" % (x, k, r.choice(["'x'", "1", "'x', 2"])))
            if r.random() < 0.1:
                out.append("for i <- %s {\nlet q = require('%s')\necho q.k0\n}" % (r.choice(["[1, 2]", "'abcdef'"]), self.name(i)))
        return out


def one(seed):
    if "/session/" in seed:
        return session(seed)
    r = random.Random(seed)
    m = Wide(r) if "/wide/" in seed else Mods(r)
    main = ("\n".join(m.build()) + "\n").encode("latin-1")
    files = {k: v.encode("latin-1") for k, v in m.files.items()}
    text = main + b"".join(b"\n#### %s%s\n%s" % (k.encode(), b" (not readable)" if k in m.unreadable else b"", v) for k, v in files.items())
    fs = dict(files)
    fs["main.yasl"] = main
    R.MADE = []
    try:
        o, errs, req = modules.run(main, modules.Files(fs, m.unreadable))
        cyc = R.cyclic(R.MADE)
    except R.Unspec as e:
        return seed, "skip", str(e), {}, text, b""
    except RecursionError:
        return seed, "skip", "recursion", {}, text, b""
    finally:
        R.MADE = None
    srv = work.server()
    d = populate(srv, fs, m.unreadable)
    try:
        res = srv.call(["yasl", "main.yasl"], cwd=d, cpu=10)
    finally:
        shutil.rmtree(d)
    info = {"modules required": len(req), "shared libraries loaded": sum(modules.is_library(files, q) for q in req), "programs ending with status %d" % o.code: 1, "errors compared": len(errs)}
    tail = b"\n# ---- observed ----\nstatus %s\n" % str(res.code).encode() + res.out[-3000:] + b"\n# stderr\n" + res.err[-3000:] + b"\n# ---- expected ----\nstatus %d %s\n" % (o.code, str(errs).encode()) + o.out[-3000:]
    st, det = "ok", ""
    if res.san:
        st, det = "memory", res.san
    elif res.hung:
        st, det = "hang", "no end within the CPU limit"
    elif res.timeout or res.oom:
        st, det = "skip", "limit"
    elif res.code != o.code:
        st, det = "status", "status %s, expected %s" % (res.code, o.code)
    elif R.canon(res.out) != o.out:
        st, det = "output", "output differs"
    else:
        e = modules.errors_differ(errs, modules.observed(res.err))
        if e:
            st, det = "errors", e
        elif res.done and res.blocks and not cyc:
            st, det = "leak", "%d blocks not released" % res.blocks
    return seed, st, det, info, text, tail


def main(c):
    build.runner("asan")
    api.exe()
    libraries()
    for seed, st, detail, info, src, tail in work.pmap(one, ["C26/%d/%d" % (c.seed, i) for i in range(c.n(5000, 150000))] + ["C26/%d/session/%d" % (c.seed, i) for i in range(c.n(2000, 60000))] + ["C26/%d/wide/%d" % (c.seed, i) for i in range(c.n(200, 6000))]):
        if st == "skip":
            c.count("skipped, " + detail.split(":")[0][:30])
            continue
        for k, v in info.items():
            c.count(k, v)
        c.observe(src, True)
        if st != "ok":
            c.violation(src.decode("latin-1"), "%s (%s): %s" % (st, seed, detail), src + tail)


check.main("C26", "distinct programs over directories of modules (graphs of modules, placements on the search path, exports of every kind, failing and missing ones) whose output, status and every reported error equal the reference model's", main, 2000)
