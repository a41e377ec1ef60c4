"""C23: interpreter states do not affect one another, also across threads."""
import os, random, re, subprocess
from lib import api, build, check, corpus, gen, runner, soup, work
from lib.webgen import Web

PROGS = [s for _, s in corpus.programs() if b"rand" not in s and b"stdin" not in s and b"clock" not in s and b"require" not in s and b"shuffle" not in s]
ADDR = re.compile(rb"0x[0-9a-f]+|<[\w.]+: -?\d+>")
HEXADDR = re.compile(rb"3c(?:[4-7][0-9a-f])+3a20(?:2d|3[0-9]|78|6[1-6])+3e")    # the same inside a hex dump of a string


def program(r):
    w = r.random()
    if w < 0.4:
        ws = {k: r.choice([0, 1, 3, 8]) for k in gen.DEFAULT}
        ws.update(echo=8, let=5, fn=4, call=8, block=0)
        return gen.program(r, ws, budget=30, perr=r.choice([0, 0.01, 0.03]), depth=2)
    if w < 0.7:
        return r.choice(PROGS)
    if w < 0.8:
        return Web(r).program().encode()
    if w < 0.9:
        return soup.mutate(r)
    return busy(r)


def busy(r):
    """Many values of every kind, conversions, errors: whatever might share storage behind the states' backs."""
    k, n = r.randint(1, 99), r.randint(3, 40)
    parts = ["let s = ''\nfor let i = 0; i < %d; i += 1 { s = s ~ i * %d ~ ','; }\necho s\n" % (n, k),
             "let t = {}\nfor let i = 0; i < %d; i += 1 { t[i] = i * %d; t['k' ~ i] = [i, %d]; }\nlet sum = 0\nfor x <- t { sum += (t[x] ?? 0)->tostr()->rep(1) == '' ? 0 : 1; }\necho sum ~ ' ' ~ len t\n" % (n, k, k),
             "echo 1.5 * %d\necho %d / 7\necho 1e300 * %d\necho \"a#{%d}b#{[%d, {.a: %d}]}c\"\n" % ((k,) * 6),
             "let l = [%d, 3, 9, 1]\nl->sort()\necho l\necho l->join('-%d-')\necho 'x,%d,y'->split(',')\n" % (k, k, k),
             "fn f(n) { return n < 2 ? n : f(n - 1) + f(n - 2); }\necho f(%d)\n" % (k % 11),
             "let m = mt.set({.v: %d}, {.__add: fn(a, b) { return a.v + b; }, .tostr: fn(a) { return 'm%d'; }})\necho m + 1\necho m\n" % (k, k),
             "echo collections.set(%d, 2, 'a%d') | collections.set(3)\n" % (k, k) if False else "echo len (collections.set(%d, 2, 'a%d') | collections.set(3))\n" % (k, k),
             "match [%d, 'q%d'] {\n[let a, let b] { echo a ~ b; }\n}\n" % (k, k),
             "let cs = []\nfor let i = 0; i < 3; i += 1 { let j = i * %d; cs->push(fn() { j += 1; return j; }); }\necho cs[0]() ~ cs[1]() ~ cs[2]() ~ cs[1]()\n" % k,
             "echo 'abc%d'->toupper() ~ ' q '->trim(' ') ~ 'z'->rep(%d)\necho math.sqrt(%d)\n" % (k, k % 9, k)]
    r.shuffle(parts)
    src = "".join(re.sub(r"\b(s|t|sum|l|f|m|cs|i|j|x)\b(?!:)(?=[^'\"]*(?:'[^']*'[^'\"]*)*$)", lambda q: q.group(1), p) for p in parts[:r.randint(2, 5)])
    if r.random() < 0.4:
        src += r.choice(["echo [1][%d]\n" % k, "assert %d == 0\n" % k, "undef()\n", "echo 1 // 0\n", "echo 's' + %d\n" % k])
    return src.encode()


class Script:
    """Operations on several states, merged in a random order, some from inside host functions of other states."""

    def __init__(self, r):
        self.r = r
        self.k = r.randint(2, 6)
        self.defs = []          # (host function index, owner, operation)
        self.ops = [self.state(k) for k in range(self.k)]

    def state(self, k):
        r = self.r
        n = r.randint(1, 3)
        ops = []
        for j in range(n):
            src = program(r)
            if j and r.random() < 0.2:
                ops.append("compile" if r.random() < 0.3 else "exec")
            ops.append(("new" if not j else "reset", src))
            if not j:
                ops.append("libs")
                ops.append(("reg",))
                if r.random() < 0.2:
                    ops += ["capout", "caperr"]
            for _ in range(r.choice([0, 0, 1, 3])):
                ops.append(r.choice([("push", "int %d" % r.randint(-9, 9)), ("push", "lstr " + api.hexs("s%d" % r.randint(0, 99))), ("push", "list")]))
                ops.append(r.choice(["see", "setg"]))
            ops.append("exec")
            if r.random() < 0.5:
                ops.append("getg")
        if "capout" in ops:
            ops += ["loadout", "loaderr"]
        if r.random() < 0.9:
            ops.append("del")
        return ops

    def lines(self, k, op):
        if isinstance(op, tuple):
            if op[0] in ("new", "reset"):
                return ["%d %s %s" % (k, op[0], api.hexs(op[1]))]
            if op[0] == "reg":
                out = ["%d undef" % k, "%d initg shared" % k, "%d loadg shared" % k, "%d pop" % k]
                for i in range(4):
                    out += ["%d cfn %d 0" % (k, k * 4 + i), "%d initg poke%d" % (k, i)]
                return out
            return ["%d %s" % (k, op[1])]
        if op == "setg":
            return ["%d setg shared" % k]
        if op == "see":
            return ["%d see" % k, "%d pop" % k]
        if op == "getg":
            return ["%d loadg shared" % k, "%d see" % k, "%d pop" % k]
        if op in ("loadout", "loaderr"):
            return ["%d %s" % (k, op), "%d see" % k, "%d pop" % k]
        return ["%d %s" % (k, op)]


def poked(r, src, n):
    """Calls of the host functions poke0.. around a program."""
    head = "poke0()\n" if n > 0 else ""
    if n > 1:
        head += "fn w_(a) {\nlet b = a ~ 'x'\npoke1()\nreturn b ~ a\n}\necho w_('q')\n"
    if n > 2:
        head += "for i_ <- [1, 2] {\nif i_ == 2 { poke2(); }\necho 'it' ~ i_\n}\n"
    if n > 3:
        head += "echo [3, 1, 2]->sort(fn(a_, b_) { poke3(); return a_ - b_; })\n"
    return head.encode() + src


def split(data):
    """{state: concatenation of what it printed}"""
    out, cur, last = {}, None, 0
    for m in re.finditer(rb"@@(\d+)\n", data):
        if cur is not None:
            out[cur] = out.get(cur, b"") + data[last:m.start()]
        cur, last = int(m.group(1)), m.end()
    if cur is not None:
        out[cur] = out.get(cur, b"") + data[last:]
    return {k: ADDR.sub(b"ADDR", v) for k, v in out.items()}


def merged(seed):
    r = random.Random(seed)
    s = Script(r)
    K = s.k
    pos = [0] * K
    # operations that run inside a host function of another state: (owner state, its poke index) -> (state, ops)
    inner = {}
    order = []
    busy_ = []
    nested = switches = 0

    def step(k, depth):
        """Performs the next operation of state k: appends to the global order, decides nested ones."""
        nonlocal nested
        op = s.ops[k][pos[k]]
        pos[k] += 1
        return op

    scripts, body = [], []
    execs = {}
    while any(pos[k] < len(s.ops[k]) for k in range(K)):
        k = r.choice([k for k in range(K) if pos[k] < len(s.ops[k])])
        op = step(k, 0)
        if isinstance(op, tuple) and op[0] in ("new", "reset") and r.random() < 0.5:
            # this program will call poke functions; each performs the next operations of another state
            n = r.randint(1, 4)
            ent = []
            i0 = pos[k] - 1
            s.ops[k][i0] = op = (op[0], poked(r, op[1], n))
            execs[k] = n
        if op == "exec" and execs.get(k):
            n = execs.pop(k)
            for i in range(n):
                others = [j for j in range(K) if j != k and pos[j] < len(s.ops[j])]
                acts = []
                for _ in range(r.randint(1, 3)):
                    others = [j for j in range(K) if j != k and pos[j] < len(s.ops[j])]
                    if not others:
                        break
                    j = r.choice(others)
                    o = s.ops[j][pos[j]]
                    if j in execs and o == "exec":
                        execs.pop(j)        # its pokes do nothing
                    pos[j] += 1
                    acts.append((j, o))
                    nested += 1
                body.append(("def", k, i, acts))
            body.append(("op", k, op))
            body += [("run", k, i) for i in range(n)]
        else:
            body.append(("op", k, op))
    # the interleaved script
    lines = []
    for b in body:
        if b[0] == "def":
            _, k, i, acts = b
            # a body runs its operations the first time only: the last line redefines nothing, so the ops are guarded
            inl = []
            for j, o in acts:
                inl.append("both %d" % j)
                inl += ["on " + l for l in s.lines(j, o)]
            lines.append("def %d" % (k * 4 + i))
            lines += ["once %d" % (k * 4 + i)] + inl + ["both %d" % k, "ret 0", "end"]
        elif b[0] == "run":
            lines.append("%d run %d" % (b[1], b[1] * 4 + b[2]))
        else:
            _, k, op = b
            lines.append("%d both %d" % (k, k))
            lines += s.lines(k, op)
    text = "\n".join(lines) + "\n"
    if max(map(len, lines)) > 60000 and nested or len(text) > (8 << 20):
        return seed, "skip", "size", "", b"", {}
    a = api.run(text, cpu=10)
    info = {"states": K, "operations": len(body), "operations inside host functions of other states": nested,
            "changes of state": sum(1 for x, y in zip(body, body[1:]) if x[1] != y[1])}
    tail = b"\n# ---- interleaved ----\n" + a.out[-3000:] + b"\n" + a.err[-3000:]
    if a.san:
        return seed, "memory", a.san, text, tail, info
    if a.timeout or a.oom:
        return seed, "skip", "limit", "", b"", {}
    so, se = split(a.out), split(a.err)
    for k in range(K):
        alone = []
        for i in range(4):
            alone += ["def %d" % (k * 4 + i), "ret 0", "end"]
        for op in s.ops[k]:
            alone.append("%d both %d" % (k, k))
            alone += s.lines(k, op)
        b = api.run("\n".join(alone) + "\n", cpu=10)
        if b.timeout or b.oom:
            return seed, "skip", "limit", "", b"", {}
        if b.san:
            return seed, "skip", "alone", "", b"", {}
        bo, be = split(b.out).get(k, b""), split(b.err).get(k, b"")
        for what, x, y in (("printed", so.get(k, b""), bo), ("reported", se.get(k, b""), be)):
            if x != y:
                if any(p.search(q) for p in (re.compile(b"ADDR"), HEXADDR) for q in (so.get(k, b""), bo, se.get(k, b""), be)):
                    return seed, "skip", "address", "", b"", {}
                i = len(os.path.commonprefix([x, y]))
                i = max(0, i - 20)
                return seed, "differs", "state %d %s %r among other states, %r alone" % (k, what, x[i:i + 200], y[i:i + 200]), text, tail, info
    return seed, "ok", "", text, b"", info


def threads(item):
    seed, variant = item
    r = random.Random(seed)
    n = r.randint(4, 30)
    progs = [r.choice([program, program, busy])(r) for _ in range(n)]
    progs = [p for p in progs if len(p) < 20000 and b"\0" not in p]
    same = r.random() < 0.2
    if same:
        progs = progs[:2]
    # programs that do not end by themselves, print addresses or read input have no single result
    keep = []
    for p in progs:
        x = work.server().prog(p, cpu=1, retry=False)
        if x.done and not x.timeout and not x.oom and not x.san and not ADDR.search(x.out + x.err) and b"rand" not in p and b"shuffle" not in p and b"io." not in p and b"clock" not in p:
            keep.append(p + b"\n" if r.random() < 0.5 else b"let h_ = [host_ud(), host_add(3, 4)]\n" + p)
    if not keep:
        return seed, variant, "skip", "no program", b"", {}, ""
    T, rounds, jitter = r.randint(2, 8), r.randint(2, 6), r.choice([0, 1, 20, 21, 200, 201])
    inp = b"%d %d %d\n" % (T, rounds, jitter) + b"".join(b"%d\n%s\n" % (len(p), p) for p in keep)
    e = build.build("threads", variant, ldextra=build.ALLOC_WRAP)
    env = dict(runner.SAN_ENV)
    env["TSAN_OPTIONS"] = "exitcode=88:halt_on_error=1:history_size=4"
    try:
        x = subprocess.run([e], input=inp, capture_output=True, env=env, timeout=120, cwd="/")
    except subprocess.TimeoutExpired:
        return seed, variant, "skip", "limit", b"", {}, ""
    tail = b"\n# ---- observed ----\n" + x.stdout[-4000:] + x.stderr[-6000:]
    if b"ThreadSanitizer" in x.stderr or x.returncode == 88:
        m = re.search(rb"WARNING: ThreadSanitizer: ([^\n]*)", x.stderr)
        return seed, variant, "race", (m.group(1) if m else b"race").decode(), inp + tail, {}, ""
    if b"AddressSanitizer" in x.stderr or b"runtime error:" in x.stderr or x.returncode < 0:
        return seed, variant, "memory", "status %d in threads" % x.returncode, inp + tail, {}, ""
    m = re.search(rb"ran (\d+) switches (\d+) order (\w+)", x.stdout)
    if b"differs" in x.stdout:
        return seed, variant, "differs", x.stdout[x.stdout.index(b"differs"):][:300].decode("latin-1"), inp + tail, {}, ""
    if not m or x.returncode:
        return seed, variant, "died", "status %d: %r" % (x.returncode, x.stdout[-200:]), inp + tail, {}, ""
    return seed, variant, "ok", "", inp, {"runs in threads, " + variant: int(m.group(1)), "changes of thread between finished runs": int(m.group(2))}, m.group(3).decode()


def main(c):
    api.exe()
    for seed, st, detail, text, tail, info in work.pmap(merged, ["C23/%d/%d" % (c.seed, i) for i in range(c.n(2500, 60000))], chunk=8):
        for k, v in info.items():
            c.count(k, v)
        if st == "skip":
            c.count("skipped, " + detail)
            continue
        c.observe(text, True)
        if st != "ok":
            c.violation(text, "%s (%s): %s" % (st, seed, detail), text.encode("latin-1") + tail)
    for v in ("tsan", "asan"):
        build.build("threads", v, ldextra=build.ALLOC_WRAP)
    orders = set()
    n = c.n(120, 4000)
    for seed, v, st, detail, inp, info, order in work.pmap(threads, [("C23/%d/t%d" % (c.seed, i), "asan" if i % 3 == 0 else "tsan") for i in range(n)], n=4, chunk=2):
        for k, x in info.items():
            c.count(k, x)
        if st == "skip":
            c.count("skipped, threads, " + detail)
            continue
        c.observe(inp, True)
        orders.add(order)
        if st != "ok":
            c.violation("threads %s" % seed, "%s (threads, %s, %s): %s" % (st, v, seed, detail), inp)
    c.counts["distinct orders of finished runs"] = len(orders)


check.main("C23", "distinct merges of operations on 2-6 states (each state's output and diagnostics equal to the same operations alone), and distinct sets of programs run on separate states in 2-8 threads "
           "(results equal to alone, no data race)", main, 1000)
