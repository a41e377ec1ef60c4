"""C15: a run-time failure reports the right kind and line and stops there."""
from lib import corpus, dcheck, gen, sessions

PROGS = [s for _, s in corpus.programs()]


def typed(r):
    w = {k: r.choice([0, 1, 3, 8]) for k in gen.DEFAULT}
    w.update(echo=8, let=5, fn=5, call=8, block=0)
    return gen.program(r, w, budget=40, perr=r.choice([0.004, 0.01, 0.03]), depth=3, layout=r.choice([0, 0.1, 0.4]))


FAIL = ["1 // 0", "5 % z", "[1][3]", "'ab'[9]", "'ab'[-3]", "{}.nope", "undef.x", "undef()", "5()", "'s'()", "-'a'", "^1.5", "+undef", "len 5", "1 + 'a'", "'a' - 1", "[] * 2", "{} + 1",
        "1 & 1.5", "1.5 << 2", "'a' < 1", "[] > []", "undef <= 1", "math.abs('x')", "math.max(1, undef)", "[]->pop()", "5->nope()", "'a'->search(1)", "'a'->replace('', 'b')", "[1]->push()->nope()",
        "'a'->rep(-1)", "collections.set([1])[1].x", "{[]: 1}", "collections.set([[1]])", "collections.set(undef)", "[undef]->join(1)", "[1, 'a']->sort()", "mt.set(5, {})", "mt.set({}, 5)", "bad.x",
        "bad + 1", "-bad", "bad == bad", "len bad", "bad()", "'' ~ bad", "bad['k']", "bad < 1", "1 + bad", "bad->m()", "[bad]->join(',')", "[bad] == [bad]", "[1, 2]['a']", "'abc'['x':]", "[1, 2][:undef]",
        "[x for x <- 5]", "[x // 0 for x <- [1]]", "{x: 1 for x <- [[]]}", "good(1 // 0)", "[1, 2, 1 // 0]", "{.a: 1 // z}", "true && 1 // 0", "undef ?? 1 % 0", "false || -'q'", "z ? 1 // 0 : -'s'",
        "\"a#{1 // 0}b\"", "\"#{-'a'}\"", "x * 1 // z", "2 ** 'a'", "!(1 // 0)", "fail()", "fail2(3)", "obj->fail()", "obj.fail(1)", "[1, 2]->insert(9, 1)", "'abc'->split('')", "'a'->count('')"]
STMT = ["assert false", "assert undef", "assert 1 == 2", "bad.x = 1", "[1][5] = 2", "undef.x = 1", "5[0] = 1", "{}[[]] = 1", "x += 'a'", "for q <- 5 {}", "for q <- undef {}", "x, x = 1, -'a'", "l[9] += 1",
        "while 1 // 0 {}", "if -'a' {}", "match 1 // 0 { * {} }", "match 1 { * if 1 // 0 {} }", "return_ = fail()", "let w = -'a'", "const w = [1][2]", "let w, let v = 1, undef()", "echo fail()"]
HEAD = """let z = 0
let x = 7
let l = [1, 2]
let return_ = 0
fn good(a) {
    return a
}
fn fail() {
    return 1 // z
}
fn fail2(n) {
    if n == 0 { return -'s'; }
    let a = n * 2
    return a + fail2(n - 1)
}
const bm = {}
const bad = mt.set({}, bm)
bm.__get = fn(s, k) {
    return 1 // 0
}
bm.__add = fn(a, b) { return a.q; }
bm.__neg = fn(a) {
    return -'a'
}
bm.tostr = fn(a) { return 1 % 0; }
bm.__eq = fn(a, b) {

    return undef + 1
}
bm.__len = fn(a) { return fail(); }
bm.__call = fn(a, b) { return [1][b]; }
bm.__lt = fn(a, b) { return a(9); }
bm.__set = fn(a, k, v) { return fail(); }
const obj = {.fail: fn(s) {
    return s.missing.more
}}
"""


class Ctx:
    """One failing operation inside a random nest of contexts, with output before, between and after."""

    def __init__(self, r):
        self.r, self.n = r, 0

    def nl(self):
        r = self.r
        return r.choice(["\n"] * 8 + ["\n\n", " # c\n", "\n# c\n", " /* x\n y */\n", "\n/* a\n\n*/ "])

    def e(self, f, d):
        """An expression around f that evaluates it (or not)."""
        r = self.r
        b = r.choice(["", "", "", "\n", "\n\n", " # q\n "])
        if d <= 0:
            return f
        x = self.e(f, d - 1)
        return r.choice(["%s[%s]" % ("[0, 1]->copy()" if r.random() < 0.5 else "l", x), "good(%s%s)" % (b, x), "[1, %s%s]" % (b, x), "{.a: %s%s}" % (b, x), "(%s%s)" % (b, x), "1 + %s(%s)" % (b, x),
                         "(%s) ~ %s'b'" % (x, b), "x + %s%s * 2" % (b, "(%s)" % x), "math.max(1, %s%s, 2)" % (b, x), "true ? %s%s : 1" % (b, x), "(fn() { return %s; })()" % x,
                         "(fn(a) {%sreturn a + %s%s\n})(1)" % (self.nl(), b, "(%s)" % x), "[%s for i <- [1, 2]]" % x, "[i for i <- [1, %s%s]]" % (b, x), "l->push(%s%s)" % (b, x), "z && (%s)" % x, "z || (%s)" % x,
                         "undef ?? %s%s" % (b, "(%s)" % x), "\"v#{%s}\"" % x.replace("\n", " ") if "#" not in x and '"' not in x else x, "obj->fail(%s%s)" % (b, x), "[%s%s, 2][1]" % (b, x), "-(%s)" % x])

    def s(self, f, d):
        """Statements around f."""
        r = self.r
        self.n += 1
        k = self.n
        pre = r.choice(["", "echo 'p%d'%s" % (k, self.nl())]) + "".join("let u%d_%d = %d%s" % (k, i, i, self.nl()) for i in range(r.choice([0, 0, 0, 1, 3])))
        post = "echo 'after%d'\n" % k
        if d <= 0:
            if r.random() < 0.3:
                st = r.choice(STMT)
                st = st.replace(" w", " w%d" % k).replace(" v =", " v%d =" % k)
            else:
                x = self.e(f, r.choice([0, 0, 1, 1, 2, 3]))
                st = r.choice(["echo %s", "let y%d = %%s" % k, "x = %s", "l[0] = %s", "%s" if x[0] not in "-+^!({\"'[" and not x[0].isdigit() and not x.startswith(("len", "true", "undef", "false")) and x.endswith(")") else "echo %s",
                               "if %s { echo 'yes'; }", "l->push(%s)", "for i%d <- [%%s] { echo 1; }" % k, "return_, x = 1, %s", "assert %s", "while %s { break; }", "match %s { * { echo 'any'; }; }"]) % x
            return pre + st + "\n" + post
        b = self.s(f, d - 1)
        w = r.choice(["if true {%s%s}\n", "if z {\necho 'z'\n} else {%s%s}\n", "for i%d <- [1, 2] {%%s%%s}\n" % k, "for let j%d = 0; j%d < 2; j%d += 1 {%%s%%s}\n" % (k, k, k), "while true {%s%s}\n",
                      "fn f%d(a, b) {%%s%%sreturn a\n}%secho f%d(1, 2)\n" % (k, self.nl(), k), "const g%d = fn() {%%s%%s}%sg%d()\n" % (k, self.nl(), k), "match x {\n1 {}\nlet q%d {%%s%%s}\n}\n" % k,
                      "match [1, 2] {\n[1, let r%d] if r%d == 2 {%%s%%s}\n}\n" % (k, k), "const o%d = {.m: fn(s, a) {%%s%%s}}%so%d->m(%s1)\n" % (k, self.nl(), k, r.choice(["", "\n", "\n\n"])),
                      "(fn() {%s%s})()\n", "let c%d = [(fn(v) {%%s%%sreturn v\n})(i) for i <- [1, 2]]\n" % k, "fn rec%d(n) {\nif n > 0 {\nreturn 1 + rec%d(n - 1)\n}%%s%%s}\nrec%d(%d)\n" % (k, k, k, r.randint(0, 4)),
                      "const op%d = mt.set({}, {.__add: fn(a, b) {%%s%%sreturn a\n}})\necho len (op%d + %s1)\n" % (k, k, r.choice(["", "\n"])), "{}" if False else "if x == 7 {%s%s}\n",
                      "const ts%d = mt.set([], {.tostr: fn(a) {%%s%%sreturn 'ts'\n}})\necho [1, ts%d]->join(\n',')\n" % (k, k)])
        return pre + w % (self.nl(), b) + post


def contexts(r):
    c = Ctx(r)
    f = r.choice(FAIL)
    d = r.choice([0, 1, 1, 2, 2, 3, 4])
    s = HEAD + c.s(f, d)
    if r.random() < 0.3:
        s = s + "echo 'end'\n" + c.s(r.choice(FAIL), 1)
    return s.encode()


def many(r):
    """Several failures after each other."""
    c = Ctx(r)
    return (HEAD + "".join(c.s(r.choice(FAIL), r.choice([0, 1, 1, 2, 3])) for _ in range(r.randint(3, 10)))).encode()


def plain(r):
    """Each failing expression once, alone, on a line of its own after a random number of lines."""
    k = r.randint(0, 400) if r.random() < 0.2 else r.randint(0, 20)
    pad = "".join(r.choice(["\n", "# c\n", "x = x\n", "/* a\n b\n */\n", "z = 0;\n"]) for _ in range(k))
    return (HEAD + pad + ("echo %s\n" % r.choice(FAIL) if r.random() < 0.7 else "%s\n" % r.choice(STMT)) + "echo 'after'\n").encode()


def bigline(r):
    """Long functions: code and line tables of more than one byte per entry."""
    n = r.choice([50, 130, 300, 1000])
    body = "".join("a = a + %d\n" % (i % 7) if r.random() < 0.9 else "\n" * r.choice([1, 3, 130, 300]) for i in range(n))
    bad = r.choice(["a = 1 // (a - a)\n", "a[0] = 1\n", "a()\n", "echo a.x.y\n"])
    s = "fn f(a) {\n%s%s%sreturn a\n}\n" % (body, bad, body[:r.choice([0, 100, 1000])].rsplit("\n", 1)[0] + "\n")
    return (s + "\n" * r.choice([0, 5, 200]) + "let l = [1]\nl->push(f(2))\n").encode(), {"budget": 100000}


def longer(r):
    """Programs whose failing operation, or a call on the way to it, is near an offset of the code where something may change."""
    t = r.choice([128, 256, 512, 4096, 8192, 16384, 16384, 16384, 16512, 32768, 32768, 49152, 65536]) + r.randint(-40, 140)
    head = "let x = 1\nlet l = [1]\n"
    bad = r.choice(["x = 1 // (x - x)\n", "l[5] = x\n", "x()\n", "echo x.y.z\n", "echo l[x +\n 3]\n", "assert x == 7\n", "echo 'a' +\n\n x\n"])
    size, out = 0, []
    blank = r.choice([0, 0, 0.01, 0.1])
    wide = r.choice([0, 0, 0.2])
    while size < t:
        if r.random() < wide and size + 90 < t:
            k = r.choice([10, 30])
            out.append("x = x%s\n" % " * 1".join([" "] * (k + 1)))
            size += 4 + 3 * k
        else:
            out.append("x = x\n")
            size += 4
        if r.random() < blank:
            out.append("\n" * r.choice([1, 2, 130]))
    pad = "".join(out)
    w = r.random()
    if w < 0.4:
        s = head + pad + bad + "echo 'after'\n" + pad[:200]
    elif w < 0.6:
        s = head + "fn f(x, l) {\necho 'f'\n%sreturn x\n}\n" % bad + pad + "let y = 1 + f(x, l)\necho 'after'\n"
    elif w < 0.8:
        s = head + "fn f(x, l) {\n%s\n%s\nreturn x\n}\nfn g(v, w) { return f(v, w); }\n" % (pad, bad) + "let y = [1, g(x, l)]\necho 'after'\n"
    else:
        s = head + "if true {\n%s}\nfor i <- [1, 2] {\nif i == 2 {\n%s%s}\n}\n" % (pad[:len(pad) // 14 * 7].rsplit("\n", 1)[0] + "\n", pad[:300].rsplit("\n", 1)[0] + "\n", bad)
    return s.encode(), {"budget": 400000}


def mutated(r):
    """Corpus programs with one operation broken."""
    s = r.choice(PROGS)
    ls = s.split(b"\n")
    for _ in range(r.randint(1, 2)):
        i = r.randrange(len(ls) + 1)
        ls.insert(i, r.choice([b"1 // 0->x", b"echo 1 // 0", b"undef()", b"assert false", b"echo [1][2]", b"echo -'a'", b"", b"\n\n"]))
    return b"\n".join(ls)


dcheck.main("C15", "distinct failing programs whose output, kind, line, call lines and status equal the reference model's",
            {"typed": (2200, 60000, typed), "contexts": (4500, 200000, contexts), "each failure": (1500, 15000, plain), "long functions": (150, 3000, bigline), "long programs": (300, 6000, longer), "broken corpus": (1200, 40000, mutated),
             "sessions of contexts": (700, 30000, sessions.tolerant(many)), "sessions of broken corpus": (400, 15000, sessions.tolerant(mutated))})
