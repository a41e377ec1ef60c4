"""Modules in the reference model, and programs made of several files."""
import posixpath, re
from . import yaslref as R, yasllib

GENERIC = 2


class Files:
    """What the module search finds: relative names to contents, a directory being empty."""

    def __init__(self, files, unreadable=()):
        self.files = {posixpath.normpath(k): v for k, v in files.items() if k not in unreadable}
        self.dirs = {"."}
        for k in files:
            d = posixpath.dirname(posixpath.normpath(k))
            while d:
                self.dirs.add(d)
                d = posixpath.dirname(d)

    def read(self, name):
        if not name:
            return None
        n = posixpath.normpath(name)
        if n in self.files:
            # a name that goes through or ends in something that is no directory does not exist
            return None if name.endswith("/") else self.files[n]
        return b"(" if n in self.dirs else None     # a directory opens but does not read as a program

    def find(self, name):
        for p in ("./" + name + ".yasl", name):
            s = self.read(p)
            if s is not None:
                return s
        return None


SO = b"\x7fELF library "        # what stands for a shared library in Files: this and its number (see harness/somod.c)
NSO = 8


def is_library(files, name):
    return (Files(files).read(name.decode("latin-1")) or b"").startswith(SO)


def library(I, path, n):
    """What loading shared library n at path yields."""
    def num(v):
        if R.kind(v) != "int":
            raise R.YErr(R.TYPE)
        return v

    def step(k):
        I.so[path] = I.so.get(path, 0) + k
        return I.so[path]

    def add(I, a, b):
        return [R.wrap(num(a) + num(b))]
    c = step(10)
    if n == 0:
        t = R.YTable(I.mts["table"])
        for k, v in ((b"add", R.Builtin(b"add", 2, add)), (b"next", R.Builtin(b"next", 0, lambda I: [step(1)])), (b"va", R.Builtin(b"va", -1, lambda I, a: [len(a)])),
                     (b"three", R.Builtin(b"three", 0, lambda I: [1, b"two", step(1)])), (b"name", b"so")):
            t.d[R.tkey(k)] = (k, v)
        return t
    if n == 3:
        return R.YList([1, b"x"], I.mts["list"])
    if n == 4:
        return R.Builtin(b"add", 2, add)
    if n == 5:
        raise R.YErr(R.VAL)
    return {1: 42, 2: b"text of a library", 6: None, 7: c}[n]


def setup(files):
    """Gives an Interp the require function over files."""
    def install(I):
        I.so = {}

        def require_c(I, name):
            if R.kind(name) != "str":
                raise R.YErr(R.TYPE)
            name = name.split(b"\0")[0].decode("latin-1")
            for p in ("./lib" + name + ".so", "./" + name + ".so", name if "/" in name else ""):
                s = files.read(p)
                if s is not None and s.startswith(SO):
                    n = int(s[len(SO):])
                    if n == NSO:
                        break
                    I.required.append(p.encode("latin-1"))
                    return [library(I, posixpath.normpath(p), n)]
            raise R.YErr(R.VAL)
        I.globals[b"__require_c__"] = R.Builtin(b"__require_c__", 1, require_c)
        I.require_depth = 0
        I.required = []

        def require(I, name):
            if R.kind(name) != "str":
                raise R.YErr(R.TYPE)
            if I.require_depth >= 100:
                raise R.YErr(R.STACK)
            name = name.split(b"\0")[0]
            text = files.find(name.decode("latin-1"))
            if text is None:
                raise R.YErr(GENERIC, None, b"could not open package %s." % name)
            I.required.append(name)
            if len(I.required) > 400:
                raise R.Unspec("steps")
            g, h, depth = I.globals, I.hostglobals, I.depth
            I.globals, I.hostglobals = dict(libs), set()
            inner = None
            try:
                code, fr = R.Compiler(I).program(R.parse(text))
            except R.Reject:
                inner = ("SyntaxError", None, [])
            finally:
                I.globals, I.hostglobals = g, h
            if inner is None:
                I.require_depth += 1
                try:
                    code(fr)
                except R.Export as e:
                    I.require_depth -= 1
                    I.depth = depth
                    return [e.value]
                except R.YErr as e:
                    I.errs += getattr(e, "inner", [])
                    inner = (e.msg if e.code == GENERIC else R.PREFIX.get(e.code), e.line, e.trace)
                I.require_depth -= 1
                I.depth = depth
            if inner:
                I.errs.append(inner)
            raise R.YErr(GENERIC, None, b"%s is not a valid module." % name)
        I.errs = []
        I.globals[b"require"] = R.Builtin(b"require", 1, require)
        libs = {k: v for k, v in I.globals.items() if k != b"args"}
    return install


def observed(err):
    """[(head, line, [trace])] of every error printed, without the text after its kind."""
    out = []
    for l in err.split(b"\n"):
        m = re.match(rb"In function call on line (\d+)$", l)
        if m:
            if out:
                out[-1][2].append(int(m.group(1)))
            continue
        if l.startswith(b"SyntaxError"):
            if not out or out[-1][0] != "SyntaxError":
                out.append(("SyntaxError", None, []))
            continue
        m = re.match(rb"(.*?)\s*\(line (\d+)\)$", l)
        if m and not m.group(1) and out and type(out[-1][0]) is bytes and out[-1][0].startswith(b"ValueError") and out[-1][1] is None:
            # what the dynamic loader says ends with a newline
            out[-1] = (b"ValueError", int(m.group(2)), [])
        elif m:
            h = m.group(1)
            for p in R.PREFIX.values():
                if h.startswith(p):
                    h = p
            out.append((h, int(m.group(2)), []))
        elif l:
            out.append((l, None, []))
    return out


def expected(o, I):
    e = list(I.errs)
    if o.code == 4:
        e.append(("SyntaxError", None, []))
    elif o.code not in (0, 1):
        e.append((o.msg if o.code == GENERIC else o.kind, o.line, o.trace))
    return e


def near(a, b):
    return a == b or type(a) is tuple and b is not None and a[0] <= b <= a[1]


def errors_differ(want, got):
    if len(want) != len(got):
        return "%d errors reported, expected %d: %s / %s" % (len(got), len(want), got[-3:], want[-3:])
    for w, g in zip(want, got):
        if w[0] != g[0] or (w[0] != "SyntaxError" and not (near(w[1], g[1]) and len(w[2]) == len(g[2]) and all(map(near, w[2], g[2])))):
            return "error %s, expected %s" % (g, w)
    return None


def run(src, files, args=(b"main.yasl",), budget=60000):
    """(Outcome, [expected errors], names required) of a program over files."""
    res = []
    for rev in (False, True):
        I = R.Interp(budget, rev, args=list(args))
        setup(files)(I)
        o = R.Outcome()
        o.out, o.kind, o.line, o.trace, o.code, o.msg = b"", None, None, [], 0, None
        o.steps, o.stats = 0, {}
        try:
            code, fr = R.Compiler(I).program(R.parse(src))
        except R.Reject:
            o.code = 4
            return o, expected(o, I), []
        try:
            code(fr)
        except R.Export:
            o.code = 1
        except R.YErr as e:
            o.code, o.kind, o.line, o.trace, o.msg = e.code, R.PREFIX.get(e.code), e.line, e.trace, e.msg
        o.out = R.canon(b"".join(I.out))
        res.append((o, expected(o, I), I.required))
    if res[0][0].structure() != res[1][0].structure() or res[0][2] != res[1][2]:
        raise R.Unspec("order")
    return res[0]
