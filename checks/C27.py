"""C27: files hold what was written and read back what they hold, in every mode; misuse is reported."""
import os, random, re, shutil
from lib import build, check, work

SIZES = [0, 1, 2, 15, 16, 17, 31, 32, 33, 64, 255, 256, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537]
IMAX = (1 << 63) - 1


class Stop(Exception):
    pass


class H:
    """An open file."""

    def __init__(self, name, mode, data, pos):
        self.name, self.mode, self.data, self.pos = name, mode, data, pos
        self.r = mode in ("r", "r+", "w+", "a+")
        self.w = mode != "r"
        self.app = mode[0] == "a"
        self.dir = data is None


class Prog:
    """Builds a program and what it must print and leave on disk."""

    def __init__(self, r):
        self.r = r
        self.files = {}         # on disk, as bytearrays
        self.disk = {}          # what is there before
        self.perm = {}
        self.L, self.out, self.err = [], [], b""
        self.log = bytearray()
        self.h = {}             # variable -> H, None when closed, "undef"
        self.busy = set()
        self.n = 0
        self.code, self.kind = 0, None
        self.ops = {}
        self.stdin = b""
        self.inpos = 0

    def count(self, k):
        self.ops[k] = self.ops.get(k, 0) + 1

    # ---- data
    def data(self):
        """(expression, bytes)"""
        r = self.r
        w = r.random()
        if w < 0.35:
            b = bytes(r.choice([0, 1, 9, 10, 10, 13, 26, 37, 65, 66, 97, 127, 128, 255, r.randrange(256)]) for _ in range(r.choice([0, 1, 2, 3, 8, 15, 16, 17, 40])))
            return self.lit(b), b
        if w < 0.6:
            b = b"".join(r.choice([b"line\n", b"\n", b"x", b"a longer line of text\n", b"\r\n", b"\0\n", b"%s%n\n", b"\xff\xfe"]) for _ in range(r.randint(1, 8)))
            return self.lit(b), b
        u = r.choice([b"x", b"ab", b"\n", b"abc\n", b"\0", b"\xff\n", b"0123456789abcdef"])
        n = r.choice(SIZES) // len(u) if r.random() < 0.8 else r.randint(0, 300)
        if r.random() < 0.5:
            t = b"".join(r.choice([b"", b"y", b"\n"]) for _ in range(1))
            return "%s->rep(%d) ~ %s" % (self.lit(u), n, self.lit(t)), u * n + t
        return "%s->rep(%d)" % (self.lit(u), n), u * n

    def lit(self, b):
        return "'" + "".join("\\x%02x" % c if c < 32 or c > 126 or c in b"'\\#" else chr(c) for c in b) + "'"

    def emit(self, line, out=None):
        self.L.append(line)
        if out is not None:
            self.out.append(out if isinstance(out, bytes) else out.encode())

    def fail(self, line, code, kind):
        self.L.append(line)
        self.code, self.kind = code, kind
        raise Stop()

    # ---- handles
    def live(self):
        return [v for v, h in self.h.items() if isinstance(h, H)]

    def form(self, v):
        """An expression for the handle."""
        w = self.r.random()
        return v if w < 0.8 else "[0, %s][1]" % v if w < 0.9 else "(fn(h) {\nreturn h\n})(%s)" % v

    def open(self):
        r = self.r
        self.n += 1
        v = "f%d" % self.n
        free = [n for n in sorted(self.files) if n not in self.busy]
        w = r.random()
        mode = r.choice(["r", "r", "w", "a", "r+", "w+", "a+"])
        if w < 0.1:
            name = r.choice(["missing.txt", "nodir/x", "", "dir/none/x"])
            if mode[0] != "r" and name == "missing.txt":
                mode = "r"
            self.emit("let %s = io.open(%s, %s)\necho %s == undef" % (v, self.lit(name.encode()), self.lit(mode.encode()), v), "true\n")
            self.count("open of what cannot be opened")
            return
        if w < 0.14:
            name = r.choice(["locked", "readonly"])
            ok = name == "readonly" and mode == "r"
            self.emit("let %s = io.open('%s', '%s')\necho %s == undef" % (v, name, mode, v), "false\n" if ok else "true\n")
            self.count("open with permissions missing")
            if ok:
                self.emit("L(%s->read('a'))" % v, "11\n")
                self.log += b"do not edit"
            return
        if w < 0.17:
            self.emit("let %s = io.open('dir', '%s')\necho %s == undef" % (v, mode, v), "false\n" if mode == "r" else "true\n")
            if mode == "r":
                self.emit("L(%s->read('%s'))" % (v, r.choice("al")), "0\n")
                if r.random() < 0.5:
                    self.emit("echo %s->close()" % v, "true\n")
            self.count("open of a directory")
            return
        if free and r.random() < 0.8:
            name = r.choice(free)
        else:
            name = r.choice(["n%d.bin" % self.n, "dir/n%d" % self.n, "./n%d" % self.n, "name with %%s %d" % self.n])
        if name in self.busy:
            return
        if name not in self.files:
            if mode[0] == "r":
                self.emit("echo io.open('%s', '%s') == undef" % (name, mode), "true\n")
                return
            self.files[name] = bytearray()
        if mode[0] == "w":
            del self.files[name][:]
        h = H(name, mode, self.files[name], len(self.files[name]) if mode == "a" else 0)
        self.busy.add(name)
        if mode == "r" and r.random() < 0.5:
            self.emit("let %s = io.open('%s'%s)" % (v, name, r.choice(["", ", undef"])))
        else:
            self.emit("let %s = io.open(%s, '%s')" % (v, r.choice(["'%s'" % name, "'%s' ~ ''" % name]), mode))
        self.emit("echo %s == undef" % v, "false\n")
        self.h[v] = h
        self.count("opened " + mode)

    def put(self, h, b):
        if not h.w:
            return 0
        if not b:
            return 0
        if h.app:
            h.pos = len(h.data)
        if h.pos > len(h.data):
            h.data += b"\0" * (h.pos - len(h.data))
        h.data[h.pos:h.pos + len(b)] = b
        h.pos += len(b)
        return len(b)

    def write(self, v):
        h, r = self.h[v], self.r
        e, b = self.data()
        n = r.choice([1, 1, 1, 2, 5, 30]) if len(b) < 5000 else 1
        if n > 1:
            self.emit("for let i%d = 0; i%d < %d; i%d += 1 {\necho %s->write(%s)\n}" % (self.n, self.n, n, self.n, self.form(v), e), "".join("%d\n" % self.put(h, b) for _ in range(n)))
        else:
            self.emit("echo %s->write(%s)" % (self.form(v), e), "%d\n" % self.put(h, b))
        self.count("writes" if h.w else "writes to files opened for reading")

    def get(self, h, how):
        if not h.r:
            return b""
        if how == "a":
            d = bytes(h.data)
            h.pos = len(h.data)
            return d
        d = bytes(h.data[h.pos:])
        i = d.find(b"\n")
        if i < 0:
            h.pos = max(h.pos, len(h.data))
            return d
        h.pos += i + 1
        return d[:i]

    def read(self, v):
        h, r = self.h[v], self.r
        how = r.choice(["l", "l", "l", "a"])
        if not h.r and how == "a":
            h.pos = 0 if not h.app else h.pos      # the position is where reading everything starts
            if h.app:
                how = "l"
        arg = "'a'" if how == "a" else r.choice(["", "'l'", "undef"])
        n = r.choice([1, 1, 2, 3, 20])
        self.count("reads" if h.r else "reads of files opened for writing")
        for i in range(n if how == "l" else 1):
            d = self.get(h, how)
            self.emit("L(%s->read(%s))" % (self.form(v), arg), "%d\n" % len(d))
            self.log += d

    def seek(self, v):
        h, r = self.h[v], self.r
        size = len(h.data)
        whence = r.choice(["set", "set", "cur", "end"])
        base = {"set": 0, "cur": h.pos, "end": size}[whence]
        target = r.choice([0, 1, size, size - 1, size // 2, size + 1, size + r.randint(0, 5000), r.randint(0, size), -1, -r.randint(1, 100), h.pos])
        off = target - base
        if r.random() < 0.05:
            off = r.choice([-IMAX - 1, -IMAX])
        ok = 0 <= base + off
        args = "'%s', %d" % (whence, off)
        if off == -IMAX - 1:
            args = "'%s', -%d - 1" % (whence, IMAX)
        if off == 0 and r.random() < 0.5:
            args = "'%s'" % whence
            if whence == "set" and r.random() < 0.5:
                args = r.choice(["", "undef", "undef, undef", "undef, 0"])
        elif whence == "set" and r.random() < 0.3 and off >= 0:
            args = "undef, %d" % off
        self.emit("echo %s->seek(%s)" % (self.form(v), args), "true\n" if ok else "false\n")
        if ok:
            h.pos = base + off
        self.count("seeks")

    def flush(self, v):
        h, r = self.h[v], self.r
        self.emit("echo %s->flush()" % self.form(v), "true\n")
        self.count("flushes")
        if h.w and r.random() < 0.7:
            # another handle sees it
            self.n += 1
            self.emit("let g%d = io.open('%s')\nL(g%d->read('a'))\necho g%d->close()" % (self.n, h.name, self.n, self.n), "%d\ntrue\n" % len(h.data))
            self.log += h.data

    def close(self, v):
        h = self.h[v]
        if self.r.random() < 0.15:
            # never closed: what it holds counts at the end
            self.emit("%s = undef" % v)
            self.h[v] = "gone"
            self.count("dropped")
            return
        self.emit("echo %s->close()" % self.form(v), "true\n")
        self.h[v] = None
        self.busy.discard(h.name)
        self.count("closes")

    def again(self, v):
        """Whole content through a fresh handle, while none is open on it."""
        free = [n for n in sorted(self.files) if n not in self.busy]
        if free:
            n = self.r.choice(free)
            self.n += 1
            w = self.r.random()
            if w < 0.5:
                self.emit("L(io.open('%s')->read('a'))" % n, "%d\n" % len(self.files[n]))
                self.log += self.files[n]
            else:
                # line by line
                ls = bytes(self.files[n]).split(b"\n")
                k = len(ls) + 2
                if k > 60:
                    return
                self.emit("let g%d = io.open('%s')\nfor let i%d = 0; i%d < %d; i%d += 1 {\nL(g%d->read())\n}" % (self.n, n, self.n, self.n, k, self.n, self.n),
                          "".join("%d\n" % len(x) for x in ls + [b""] * (k - len(ls))))
                self.log += b"".join(ls)
                self.emit("g%d->close()" % self.n)
            self.count("read again")

    def misuse(self):
        """Ends the program."""
        r = self.r
        lv = self.live()
        v = r.choice(lv) if lv else "io.stdout"
        T, V = (5, b"TypeError"), (7, b"ValueError")
        t = [("io.open(5)", T), ("io.open()", T), ("io.open(undef, 'r')", T), ("io.open('x', 5)", T), ("io.open('x', [])", T), ("io.open('x', '')", V), ("io.open('x', 'q')", V), ("io.open('x', 'rw')", V), ("io.open('x', 'r+b')", V), ("io.open('x', 'q+')", V), ("io.open('x', 'rb')", V),
             ("io.open('x', '%s%n')", V), ("%s->read(5)" % v, T), ("%s->read('x')" % v, V), ("%s->read('')" % v, V), ("%s->read('all')" % v, V), ("%s->write()" % v, T), ("%s->write(5)" % v, T), ("%s->write(undef)" % v, T), ("%s->write([])" % v, T),
             ("%s->seek('top')" % v, V), ("%s->seek('')" % v, V), ("%s->seek(5)" % v, T), ("%s->seek('set', '0')" % v, T), ("%s->seek('set', 1.0)" % v, T), ("%s->seek('SET')" % v, V), ("%s.read('x', 'a')" % v, T), ("%s.write('x', 'y')" % v, T), ("%s.close(5)" % v, T), ("%s.close()" % v, T),
             ("%s.flush(undef)" % v, T), ("%s.seek({}, 'set')" % v, T), ("%s->nothing()" % v, V), ("%s + 1" % v, T), ("len %s" % v, T)]
        closed = [k for k, h in self.h.items() if h is None]
        if closed:
            c = r.choice(closed)
            t += [("%s->%s" % (c, x), V) for x in ("read()", "read('a')", "write('x')", "write('')", "close()", "flush()", "seek('set', 0)", "seek()")] * 2
            t += [("%s->write(5)" % c, V), ("%s->read(5)" % c, T), ("%s->seek(5)" % c, T)]
        e, (code, kind) = r.choice(t)
        self.count("misuses")
        for f in ("x", "%s"):
            self.disk.pop(f, None)
        self.fail("echo %s" % e if r.random() < 0.5 else "let bad = %s" % e, code, kind)

    def std(self):
        r = self.r
        w = r.random()
        if w < 0.3:
            e, b = self.data()
            if len(b) > 5000:
                return
            self.emit("let w%d = io.stdout->write(%s)\necho w%d" % (self.n, e, self.n), b + b"%d\n" % len(b))
        elif w < 0.45:
            e, b = self.data()
            self.emit("echo io.stderr->write(%s)" % e, b"%d\n" % len(b))
            self.err += b
        elif w < 0.85:
            k = r.randint(1, 3)
            for _ in range(k):
                d = self.stdin[self.inpos:]
                i = d.find(b"\n")
                x = d if i < 0 else d[:i]
                self.inpos = len(self.stdin) if i < 0 else self.inpos + i + 1
                self.emit("L(io.stdin->read(%s))" % r.choice(["", "'l'"]), b"%d\n" % len(x))
                self.log += x
        elif w < 0.9:
            self.emit("echo io.stdout->flush()", "true\n")
        else:
            return
        self.count("operations on the standard streams")
        self.n += 1

    def many(self):
        """Handles given up, closed or not, do not run out."""
        free = [n for n in sorted(self.files) if n not in self.busy]
        if not free:
            return
        n, r = r_choice(self.r, free), self.r
        self.n += 1
        k = r.choice([300, 1100, 2500])
        d = bytes(self.files[n]).split(b"\n")[0]
        self.emit("let m%d = 0\nfor let i%d = 0; i%d < %d; i%d += 1 {\nlet f = io.open('%s')\nif len f->read() == %d {\nm%d += 1\n}\n%s}\necho m%d" % (self.n, self.n, self.n, k, self.n, n, len(d), self.n, "f->close()\n" if r.random() < 0.4 else "", self.n), "%d\n" % k)
        self.count("handles opened in loops")
        self.ops["handles opened in loops"] += k - 1

    def device(self):
        """A device that takes nothing: some operation says so."""
        r = self.r
        self.n += 1
        n = r.choice([1, 10, 4000, 5000, 100000])
        self.emit("let d%d = io.open('/dev/full', '%s')\nlet c%d = d%d->write('x'->rep(%d)) == %d\nlet l%d = d%d->flush()\nlet k%d = d%d->close()\necho c%d && l%d && k%d" % (self.n, r.choice(["w", "a", "r+"]), self.n, self.n, n, n, self.n, self.n, self.n, self.n, self.n, self.n, self.n), "false\n")
        self.emit("let e%d = io.open('/dev/full', 'w')\ne%d->write('y'->rep(%d))\necho e%d->close()" % (self.n, self.n, r.choice([1, 100, 4095]), self.n), "false\n")
        self.emit("let z%d = io.open('/dev/null', 'w')\necho z%d->write('y'->rep(%d))\necho z%d->close()" % (self.n, self.n, n, self.n), "%d\ntrue\n" % n)
        self.count("failing devices")

    def run(self):
        r = self.r
        for i in range(r.randint(0, 3)):
            self.disk["old%d" % i] = self.data()[1] if r.random() < 0.9 else b""
        self.disk["readonly"], self.disk["locked"] = b"do not edit", b"nothing"
        self.perm = {"readonly": 0o444, "locked": 0}
        self.files = {k: bytearray(v) for k, v in self.disk.items() if k not in self.perm}
        if r.random() < 0.5:
            self.stdin = b"".join(r.choice([b"line\n", b"\n", b"\0x\n", b"last", b"x" * 40 + b"\n"]) for _ in range(r.randint(0, 6)))
        self.emit("let log = io.open('log', 'w')\nfn L(s) {\necho len s\nassert log->write(s) == len s\nreturn undef\n}")
        try:
            for _ in range(r.randint(3, 40)):
                w = r.random()
                lv = self.live()
                if not lv or w < 0.12:
                    self.open()
                elif w < 0.4:
                    self.write(r.choice(lv))
                elif w < 0.62:
                    self.read(r.choice(lv))
                elif w < 0.75:
                    self.seek(r.choice(lv))
                elif w < 0.8:
                    self.flush(r.choice(lv))
                elif w < 0.88:
                    self.close(r.choice(lv))
                elif w < 0.93:
                    self.again(None)
                elif w < 0.96:
                    self.std()
                elif w < 0.97:
                    self.many()
                elif w < 0.975:
                    self.device()
                elif w < 0.98:
                    self.misuse()
            if r.random() < 0.3:
                for v in self.live():
                    self.close(v)
            if r.random() < 0.35:
                self.misuse()
        except Stop:
            pass
        return "\n".join(self.L) + "\n"


def r_choice(r, l):
    return r.choice(l)


def one(seed):
    r = random.Random(seed)
    p = Prog(r)
    src = p.run().encode("latin-1")
    srv = work.server()
    d = os.path.join(srv.dir, "c27")
    os.mkdir(d)
    os.chmod(d, 0o777)
    try:
        os.mkdir(d + "/dir")
        os.chmod(d + "/dir", 0o777)
        for k, v in list(p.disk.items()) + [("main.yasl", src)]:
            with open(os.path.join(d, k), "wb") as f:
                f.write(v)
            os.chmod(os.path.join(d, k), p.perm.get(k, 0o666))
        res = srv.call(["yasl", "main.yasl"], p.stdin, cwd=d, cpu=10)
        got = {}
        for a, _, fs in os.walk(d):
            for f in fs:
                q = os.path.join(a, f)
                with open(q, "rb") as fh:
                    got[os.path.relpath(q, d)] = fh.read()
    finally:
        shutil.rmtree(d)
    want = {os.path.normpath(k): bytes(v) for k, v in p.files.items()}
    want.update({"main.yasl": src, "log": bytes(p.log), "readonly": b"do not edit", "locked": b"nothing"})
    out = b"".join(p.out)
    info = dict(p.ops)
    info["bytes compared on disk"] = sum(map(len, want.values()))
    text = src + b"\n# ---- files before ----\n" + b"".join(b"# %s: %r\n" % (k.encode(), v[:300]) for k, v in p.disk.items())
    tail = b"\n# ---- observed ----\nstatus %s\n" % str(res.code).encode() + res.out[-2000:] + b"\n# stderr\n" + res.err[-3000:] + b"\n# ---- expected ----\nstatus %d\n" % p.code + out[-2000:]

    def diff(a, b):
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        return "at byte %d: %r, expected %r (%d bytes, expected %d)" % (i, a[max(0, i - 20):i + 40], b[max(0, i - 20):i + 40], len(a), len(b))
    st, det = "ok", ""
    if res.san:
        st, det = "memory", res.san
    elif res.hung:
        st, det = "hang", "no end within the CPU limit"
    elif res.timeout or res.oom:
        st, det = "skip", "limit"
    elif res.out != out:
        st, det = "output", diff(res.out, out)
    elif res.code != p.code:
        st, det = "status", "status %s, expected %d" % (res.code, p.code)
    elif got != want:
        if sorted(got) != sorted(want):
            st, det = "files", "files %s, expected %s" % (sorted(got), sorted(want))
        else:
            k = [k for k in got if got[k] != want[k]]
            st, det = "content", "%s %s" % (k, diff(got[k[0]], want[k[0]]))
    elif not res.err.startswith(p.err) or (p.kind is None and res.err != p.err):
        st, det = "stderr", diff(res.err, p.err)
    elif p.kind and not res.err[len(p.err):].startswith(p.kind):
        st, det = "kind", "reported %r, expected %s" % (res.err[len(p.err):][:100], p.kind)
    elif p.kind and not re.search(rb"\(line %d\)" % src.count(b"\n"), res.err[len(p.err):]):
        st, det = "line", "reported %r, expected line %d" % (res.err[len(p.err):][:100], src.count(b"\n"))
    elif res.done and res.blocks:
        st, det = "leak", "%d blocks not released" % res.blocks
    return seed, st, det, info, text, tail


def main(c):
    build.runner("asan")
    for seed, st, detail, info, src, tail in work.pmap(one, ["C27/%d/%d" % (c.seed, i) for i in range(c.n(12000, 400000))]):
        if st == "skip":
            c.count("skipped, " + detail)
            continue
        for k, v in info.items():
            c.count(k, v)
        c.observe(src, True)
        if st != "ok":
            c.violation(src.decode("latin-1"), "%s (%s): %s" % (st, seed, detail), src + tail)


check.main("C27", "distinct programs over files (sequences of open, read, write, seek, flush, close in every mode, contents of any bytes and sizes around buffer limits, misuse at the end) whose every result and every file's final content equals the byte-file model's", main, 3000)
