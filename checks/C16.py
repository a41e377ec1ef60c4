"""C16: a program that is not well-formed is rejected whole, before anything runs."""
from lib import corpus, dcheck, diff, gen, relay, soup, work, yaslref as R, yaslparse as Y

FILES = {"s.txt": b"line one\nline two\n", "m.yasl": b"export {.a: 1}\n"}


def verdict(src):
    """True: well-formed, False: not, None: the reference says nothing."""
    try:
        I = R.Interp(100, False, args=(b"p.yasl",))
        R.Compiler(I).program(Y.parse(src))
        return True
    except Y.Reject:
        return False
    except (RecursionError, R.Unspec):
        return None
    except Exception:
        return None


def compare(src):
    v = verdict(src)
    if v is None:
        return "skip", "no verdict", None, None
    s = work.server()
    a = s.prog(src, mode="-C", cpu=5)
    b = s.prog(src, files=FILES, stdin=b"x\n", cpu=1, retry=False)
    for x in (a, b):
        if x.san:
            return "memory", x.san, v, (a, b)
    if a.hung:
        return "hang", "compiling does not end", v, (a, b)
    if a.timeout or a.oom:
        return "skip", "resource limit", None, None
    if v:
        if a.code != 0:
            return "refused", "well-formed, but compiling gives status %s" % a.code, v, (a, b)
        if a.out or a.err:
            return "compile-only output", "compiling prints %r" % (a.out or a.err)[:100], v, (a, b)
        if not b.timeout and not b.oom and b.code == 4:
            return "refused", "well-formed, but running gives the syntax-error status", v, (a, b)
        return "ok", "", v, (a, b)
    for how, x in (("compiling", a), ("running", b)):
        if x.timeout or x.oom or x.code != 4:
            return "accepted", "ill-formed, but %s gives status %s" % (how, x.code), v, (a, b)
        if x.out:
            return "executed", "ill-formed, but %s prints %r" % (how, x.out[:100]), v, (a, b)
        if b"SyntaxError" not in x.err:
            return "diagnostic", "rejected without a diagnostic by %s" % how, v, (a, b)
    return "ok", "", v, (a, b)


def case(src):
    def run():
        st, detail, v, ab = compare(src)
        if st == "skip":
            return st, detail, src, {}, b""
        info = {"well-formed" if v else "ill-formed": 1}
        if st == "ok":
            return st, detail, src, info, b""
        small = diff.reduce(src, st, lambda s: compare(s)[0])
        st2, d2, v2, ab2 = compare(small)
        base = src
        if st2 == st:
            base, detail, ab = small, d2, ab2
        return st, detail, base, info, b"\n# ---- -C ----\n" + ab[0].out[-500:] + ab[0].err[-2500:] + b"\n# ---- run ----\n" + ab[1].out[-500:] + ab[1].err[-2500:]
    return run


def mutated(r):
    return case(soup.mutate(r))


def tokens(r):
    return case(soup.soup(r) if r.random() < 0.7 else soup.noise(r))


FAULT = ["break", "continue", "return 1", "export 1", "echo nosuch", "nosuch = 1", "const k_ = 1\nk_ = 2", "const k_ = 1\nk_ += 2", "let d_ = 1\nlet d_ = 2", "const d_ = 1\nconst d_ = 1", "let d_ = 1\nconst d_ = 1",
         "let = 1", "let 5 = 1", "let if = 1", "let header = 1", "let in = 2", "echo", "let x_ = ", "x_ == ", "1 = 2", "f_() = 3", "fn f_(a, a) {}", "fn f_(a, const a) {}", "fn (a) {}", "fn f_(1) {}",
         "fn f_(a", "if {}", "if true", "while {}", "for {}", "for a_ <- {}", "for 1 <- [1] {}", "else {}", "elseif true {}", "match {}", "match 1 { 1 }", "match 1 { let a_ | let b_ {} }",
         "match 1 { [let a_, let a_] {} }", "match 1 { [..., 1] {} }", "match 1 { {.a: 1, ..., .b: 2} {} }", "match 1 { {.a} {} }", "match 1 { nosuch {} }", "match 1 { 1 + 2 {} }", "match 1 { (1 {} }", "match 1 { | 1 {} }",
         "match 1 { -'a' {} }", "match 1 { let {} }", "match 1 { 1 if {} }", "match 1 { [1 2] {} }", "echo 0x", "echo 0b2", "echo 1.5e", "echo 1.5e+", "echo 'abc", "echo \"abc", "echo `abc", "echo '\\q'", "echo '\\x4'",
         "echo \"#{1\"", "echo \"#x\"", "echo \"#{}\"", "echo \"#{1 2}\"", "/* open", "echo (1", "echo 1)", "echo [1", "echo 1]", "echo {1: 2", "echo {1}", "echo {1: }", "echo [1, ]", "f_(1, )", "echo 1 +", "echo * 1", "echo 1 2",
         "echo a b", "echo 1 ? 2", "echo 1 ? 2 : ", "echo .5", "echo @", "echo 1 := 2", "echo x_ =~ 1", "echo 1->", "echo 1->2", "echo 1.", "echo [][", "echo [][]", "echo [][1:2:3]", "echo [x for x <- ]",
         "echo [x for <- []]", "echo [x for x <- [] if]", "echo [for x <- []]", "echo {x for x <- []}", "echo {x: for x <- []}", "let a_, b_ = 1, 2", "a_, let c_ = 1", "let a_, let b_", "let a_, let a_ = 1, 2", "assert", "return", "let x_ = fn(", "fn f_() { break; }", "fn f_() { continue; }",
         "for q_ <- [1] { fn f_() { break; }; }", "while true { let g_ = fn() { continue; }; }", "fn f_() { export 1; }", "if true { export 1; }", "let x_ = y_\nlet y_ = 1", "fn f_() { return g_(); }\nfn g_() { return 1; }",
         "if true { let i_ = 1; }\necho i_", "for i_ <- [] {}\necho i_", "for let i_ = 0; i_ < 1; i_ += 1 {}\necho i_", "match 1 { let i_ {} }\necho i_", "fn f_(i_) {}\necho i_", "[i_ for i_ <- []]\necho i_", "let f_ = fn(i_) {}\necho i_", "const fn f_() {}\nf_ = 1",
         "fn f_(const p_) { p_ = 1; }", "for const c_ <- [1] { c_ = 2; }", "match 1 { const c_ { c_ = 1; } }", "{ echo 1; }", "; ;", "let x_ = 1 let y_ = 2", "}", ")", "(", "{", "[", "yield", "use x_", "do {}", "struct {}", "echo no", "typename = 1", "enum", "global x_",
         "true = 1", "undef = 1", "len = 1", "let undef = 1", "let true = 1", "let x_ = len", "fn len() {}", "fn f_ {}", "x_->y_ = 1", "'a' = 1", "[1] = 2", "{} = 1", "(z_) = 1", "fn f_() = 1", "echo 1 === === 2", "echo !", "echo -", "echo ^", "const c_", "let l_[0] = 1", "let t_.x = 1", "...", "echo ...", "1 ... 2", "echo 1 <- 2"]



def nested_assign(r):
    """An assignment, at some depth of functions and blocks, to a name declared const, let or as a parameter at some other."""
    out, ind, scopes = [], 0, []
    n = r.randint(1, 6)
    decl = r.randrange(n)
    kind = r.choice(["const k_ = 1", "let k_ = 1", "const k_ = [1]", "let k_", "fn k_() {}", "const fn k_() {}"])
    par = r.random() < 0.3
    close = []
    for i in range(n):
        if i == decl and not par:
            out.append(kind)
        elif r.random() < 0.1:
            out.append(r.choice(["let k_ = 2", "const k_ = 2"]))
        p = r.choice(["k_", "const k_"]) if par and i == decl else r.choice(["", "", "a_", "const a_"])
        w = r.random()
        if w < 0.3:
            out.append("let f%d = fn(%s) {" % (i, p))
        elif w < 0.55:
            out.append("fn f%d(%s) {" % (i, p))
        elif w < 0.7 or (par and i == decl):
            out.append("echo (fn(%s) {" % p)
            close.append("return 0\n})(%s)" % ("1" if p else ""))
            continue
        elif w < 0.8:
            out.append("if true {")
        elif w < 0.9:
            out.append("for %s <- [1] {" % (r.choice(["i_", "const i_", "k_", "const k_"]) if r.random() < 0.5 else "i_"))
        else:
            out.append("match 1 { %s {" % r.choice(["let i_", "const i_", "*", "1", "let k_", "const k_"]))
            close.append("} }")
            continue
        close.append("}")
    out.append(r.choice(["k_ = 2", "k_ += 1", "k_ ~= 'a'", "k_ ??= 2", "k_ ||= 3", "k_ **= 2", "k_, let z_ = 1, 2", "let z_, k_ = 1, 2", "let z_ = 1, 2\nz_, k_ = 1, 2", "k_[0] = 2", "k_.a = 2", "k_[0] += 2", "let k_ = 2", "const k_ = 2", "echo k_", "echo k_ == 2",
                         "for k_ <- [1] {}", "let g_ = fn() { k_ = 3; return k_; }", "match 5 { let k_ {} }", "echo [k_ = 1]", "fn k_() {}", "echo (k_ = 5)", "k_ = k_", "a_ = 1", "i_ = 1", "a_ += 1", "i_ += 1"]))
    out += reversed(close)
    if r.random() < 0.5:
        out.append(r.choice(["k_ = 7", "echo k_", "f0 = 1", "f1()", "i_ = 1"]))
    return case(("\n".join(out) + "\n").encode())


GOOD = ["let ok_ = 1\nok_ = 2", "const ok_ = 1\necho ok_", "let ok_ = 1\nif true { let ok_ = 2; }", "for ok_ <- [1] { break; }", "while true { break; }", "for let ok_ = 0; ok_ < 2; ok_ += 1 { continue; }", "fn ok_() { return 1, 2; }", "fn ok_(a, b) {}",
        "match 1 { 1 | 2 {} }", "match 1 { [let a_] | let a_ {} }", "match [1] { [1, ...] {}\n{.a: let q_, ...} {} }", "echo (1)", "echo [1\n]", "let ok_ = {\n.a: 1\n}", "let ok_", "let ok_, const okk_ = 1, 2", "if true {} elseif false {} else {}", "match 5 { * if 1 {} }",
        "echo \"#{ 1 }\"", "echo \"\\#{ 1 }\"", "echo `\n`", "/* c */", "# c", "fn ok_() { for x_ <- [1] { if true { return 1; }; }; }", "const fn ok_() {}", "for ok_ <- [1] { fn g_() { while true { break; }; }; }", "let ok_ = 0x_ff", "let ok_ = 1__0", "echo 1.5e+3", "echo '\\x41\\0\\''",
        "echo [1][0:1]", "echo [1][:1]", "echo [x_ for x_ <- [1] if x_]", "echo {x_: 1 for x_ <- [1]}", "echo 1 ? 2 : 3 ? 4 : 5", "echo -1 ** 2", "let ok_ = fn(a) { return a; }(1)", "echo 5->toint()", "echo .foo", "let ok_ = [.a, .b]", "undef", "1", "'s'", "ok2_()" if False else "math.abs(1)"]


def faults(r):
    """A well-formed program with one statement inserted between two statements, at any depth."""
    w = {k: r.choice([0, 1, 3, 8]) for k in gen.DEFAULT}
    w.update(echo=8, let=5, block=0)
    g = gen.Gen(r, w, r.choice([5, 15, 30]), 0, 2)
    s = g.stmts(r.randint(3, 20))
    ends = [i for i, c in enumerate(s) if c == "\x02"]
    f = r.choice(FAULT) if r.random() < 0.7 else r.choice(GOOD)
    if ends and r.random() < 0.95:
        i = r.choice(ends) + 1
    else:
        i = r.choice([0, len(s)])
    s = s[:i] + f + "\x02" + s[i:]
    if r.random() < 0.2:
        s = "echo 'first'\x02" + s
    return case(gen.lay(s, r, r.choice([0, 0, 0.2])))


def tokenedit(r):
    """A well-formed generated program with one token deleted, doubled, replaced or swapped."""
    src = gen.program(r, dict(block=0), budget=r.choice([8, 20]), depth=2)
    try:
        ts, _ = relay.scan(src)
    except Y.Reject:
        return case(src)
    w = relay.Rewriter(r, [])
    xs = []
    for t in ts:
        xs.append((b" " if t.gap else b"") + (t.x if t.x is not None else w.str(t, None, None)))
    if not xs:
        return case(src)
    for _ in range(r.choice([1, 1, 1, 2])):
        i = r.randrange(len(xs))
        k = r.random()
        if k < 0.3:
            del xs[i]
        elif k < 0.45:
            xs.insert(i, xs[i])
        elif k < 0.7:
            xs[i] = b" " + r.choice(soup.TOKENS).encode() + b" "
        elif k < 0.85:
            xs.insert(i, b" " + r.choice(soup.TOKENS).encode() + b" ")
        else:
            j = r.randrange(len(xs))
            xs[i], xs[j] = xs[j], xs[i]
        if not xs:
            break
    return case(b"".join(xs))


def wellformed(r):
    w = {k: r.choice([0, 1, 3, 8]) for k in gen.DEFAULT}
    w.update(echo=8, let=5, block=0)
    return case(gen.program(r, w, budget=40, depth=r.choice([2, 3, 4]), layout=r.choice([0, 0.2, 0.5])))


dcheck.main("C16", "distinct source texts whose acceptance, in compile-only mode and when run, equals the reference parser's verdict",
            {"mutated corpus": (2500, 100000, mutated), "one fault": (3500, 120000, faults), "token edits": (2500, 100000, tokenedit), "nested assignments": (1500, 40000, nested_assign), "token soup": (800, 20000, tokens), "well-formed": (800, 30000, wellformed)})
