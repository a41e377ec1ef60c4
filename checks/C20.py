"""C20: everything allocated is released exactly once."""
import random, re
from lib import api, check, corpus, dcheck, diff, gen, owners, soup, work
from lib.webgen import Web

# Programs of other checks' generators, run here for their allocation balance.
SHARED = ["C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15"]
PROGS = [s for _, s in corpus.programs()]


# --- host objects with destructors ----------------------------------------
HOST = [("mk", 0, "udnext 0\nret 1"), ("probe", 1, "popud\nret 0"), ("mark", 0, "say mark\nret 0"), ("throwing", 0, "throw 7 no")]
PRE = "".join("def %d\n%s\nend\n" % (i, b) for i, (_, _, b) in enumerate(HOST))


def script(srcs):
    s = PRE
    for k, src in enumerate(srcs):
        s += "0 %s %s\n" % ("reset" if k else "new", api.hexs(src))
        if not k:
            s += "0 libs\n"
            for i, (n, a, _) in enumerate(HOST):
                s += "0 cfn %d %d\n0 initg %s\n" % (i, a, n)
        s += "0 exec\n"
    return s + "0 del\n0 blocks\n"


def owned(seed):
    """One or more programs on one state; every host object's end against the account."""
    r = random.Random(seed)
    srcs, exp = [], []
    base = cycles = 0
    never = set()
    while len(srcs) < (1 if r.random() < 0.7 else r.randint(2, 4)):
        body = owners.Gen(r, r.choice([0, 0.01, 0.03])).program()
        e = owners.expect(body)
        if e is None:
            return seed, "skip", "budget", "", b"", {}
        ev, failed, made, nv, live = e
        srcs.append(owners.ps(body))
        exp.append(([(k, [i + base for i in v] if k == "mark" else v and "u%d" % (int(v[1:]) + base)) for k, v in ev], failed, base, made))
        never |= {i + base for i in nv}
        base += made
        cycles += live
    text = "\n# ---- next program on the same state ----\n".join(srcs)
    res = api.run(script(srcs))
    tail = b"\n# ---- observed ----\n" + res.out[-3000:] + b"\n" + res.err[-3000:]
    info = {"programs with host objects": len(srcs), "host objects made": base, "marks": sum(k == "mark" for x in exp for k, _ in x[0]),
            "uses of host objects": sum(k == "probe" for x in exp for k, _ in x[0]), "programs ended by an error": sum(x[1] for x in exp)}

    def bad(what, detail):
        return seed, what, detail, text, tail, info
    if res.san:
        return bad("memory", res.san)
    if res.hung:
        return bad("hang", "no end within the CPU limit")
    if res.timeout or res.oom:
        return seed, "skip", "limit", "", b"", {}
    k, n = 0, 0
    dead = set()            # destroyed so far
    free = set()            # unreachable so far
    for line in res.out.decode("latin-1").split("\n"):
        t = line.split()
        if not t:
            continue
        if t[0] == "destroy":
            i = int(t[1])
            if i in dead:
                return bad("destroyed twice", "host object %d destroyed twice" % i)
            dead.add(i)
        elif t[0] == "exec":
            ev, failed, b, made = exp[k]
            if n != len(ev):
                return bad("events", "program %d made %d calls, expected %d" % (k, n, len(ev)))
            if (t[1] != "0") != failed:
                return bad("status", "program %d ended with %s, expected %s" % (k, t[1], "an error" if failed else "0"))
            free |= set(range(b, b + made)) - never
            k, n = k + 1, 0
        elif line == "say mark" or t[0] == "popud":
            ev = exp[k][0]
            if n >= len(ev):
                return bad("events", "more calls than expected")
            want, v = ev[n]
            n += 1
            if want == "mark" and line == "say mark":
                free |= set(v)
                if dead - free:
                    return bad("destroyed early", "host object %s destroyed while reachable (event %d)" % (sorted(dead - free)[:4], n))
            elif want == "probe" and t[0] == "popud":
                g = t[1] if t[1] not in ("null", "other") else None
                if g != v:
                    return bad("value", "event %d saw %s, expected %s" % (n, g, v))
            else:
                return bad("events", "event %d is %r, expected %s" % (n, line, want))
        elif t[0] == "blocks":
            left = int(t[1])
    if k != len(exp):
        return bad("events", "%d programs ran, expected %d" % (k, len(exp)))
    if dead != set(range(base)) - never:
        return bad("never destroyed", "host objects %s not destroyed by deleting the state" % sorted(set(range(base)) - never - dead)[:5])
    if bool(left) != bool(cycles):
        return bad("leak", "%d blocks not released by deleting the state (%d in cycles)" % (left, cycles))
    return seed, "ok", "", text, b"", info


# --- balance of whole programs --------------------------------------------
def typed(r):
    w = {k: r.choice([0, 1, 3, 8]) for k in gen.DEFAULT}
    w.update(echo=4, let=5, fn=4, call=8, block=0)
    return gen.program(r, w, budget=50, perr=r.choice([0, 0.005, 0.01, 0.03]), depth=3)


FAILS = ["-'a'", "1 // 0", "undef.x", "undef()", "[1][7]", "assert false", "bad + 1", "x += []", "'ab' < 1", "len 4", "thrower(3)", "[3, 'a']->sort()", "[1, 2]->nope()", "let q1, let q2 = 1, -'a'", "math.max('a')",
         "undef->f([1, 'heap ' ~ x])", "for q3 <- 5 {}", "match [1, 'h' ~ x] {\n[let q4, let q5] if -q5 {\n}\n}", "echo \"a#{[x, -'a']}b\"", "l->push('h' ~ x, -'a')", "['h' ~ x, {.a: [x]}, -'q']",
         "{.a: 'h' ~ x, .b: -'a'}", "['s' ~ y ** 'a' for y <- l]", "fn(a) { return -'a'; }('heap' ~ x)", "f('h' ~ x, ['u'], -'a')"]
WRAP = ["if true {\n%s\n}", "for k <- [['h' ~ x], 2] {\n%s\n}", "for let i = [0]; len i < 4; i->push('h' ~ x) {\n%s\n}", "while true {\nlet w = 'heap' ~ x\n%s\nbreak\n}", "match ['h' ~ x, [2]] {\n[let a, let b] {\n%s\n}\n}",
        "fn g(p, q) {\nlet loc = [p, q]\n%s\nreturn p\n}\ng('h' ~ x, ['i'])", "const c = fn(p) {\nlet r = [x, p]\nlet k = fn() { return r; }\n%s\nreturn k\n}\nc({.a: 'j' ~ x})()", "for ch <- 'abc' {\n%s\n}",
        "for k <- {.a: 'h' ~ x, .b: [x]} {\n%s\n}", "for s <- collections.set(1, 'h' ~ x) {\n%s\n}", "let m = mt.set({.u: 'h' ~ x}, {.__add: fn(p, q) {\nlet loc = [p, 'k' ~ x]\n%s\nreturn q\n}})\nm + ['z' ~ x]",
        "[3, 1, 2]->sort(fn(p, q) {\nlet loc = ['h' ~ p, q]\n%s\nreturn p - q\n})", "let it = mt.set({}, {.__iter: fn(self) {\nlet n = 0\nreturn fn() {\nn += 1\nlet loc = 'h' ~ n\n%s\nreturn n > 2 ? undef : ['i' ~ n]\n}\n}})\nfor e <- it {\necho 'it'\n}",
        "echo ['t' ~ u for u <- l]\n%s", "let t = {['k' ~ x]: ['v' ~ x]}\n%s", "let s1 = 'abc'->split('b')\nlet s2 = (s1->join('-') ~ x)[1:]\n%s", "echo 'heap' ~ x ~ [x] ~ {.a: x}\n%s", "x = x ~ 'more'\nl->push(l[0])\n%s"]


def abort(r):
    """An error at some depth of constructs that each hold allocated values."""
    body = r.choice(FAILS) if r.random() < 0.85 else "echo 'no error'"
    if r.random() < 0.5:
        body = "if y > %d {\n%s\n}\ny += 1" % (r.randint(0, 3), body)
    for k in range(r.randint(1, 5)):
        w = re.sub(r"\b(k|i|w|a|b|g|p|q|loc|c|r|ch|s|m|it|n|e|t|s1|s2|u)\b(?!:)(?<!%s)", lambda m: m.group(1) + str(k), r.choice(WRAP))
        body = w % body
    return ("let x = 5\nlet y = 0\nlet l = ['one', ['two'], 'three']\nconst bad = mt.set({}, {.__add: fn(p, q) { return 'h' ~ [p] ~ -'a'; }})\n"
            "fn f(p, q, r) { return [p, q, r]; }\nlet thrower = undef\nthrower = fn(n) {\nlet h = 'heap' ~ n\nif n == 0 { return -h; }\nreturn n + undef\n}\n" + body + "\necho l\n").encode()


def corp(r):
    return r.choice(PROGS)


def swarm(r):
    return Web(r).program().encode()


def broken(r):
    """A text that may or may not be a program, compiled only: nothing may stay allocated."""
    src = r.choice([soup.mutate, soup.mutate, soup.mutate, soup.soup, soup.noise])(r)

    def run():
        res = work.server().prog(src, cpu=2, mode="-C", retry=False)
        info = {"compile only, status %s" % res.code: 1}
        if res.timeout or res.oom:
            return "skip", "limit", src, {}, b""
        if res.san:
            return "memory", res.san, src, info, res.err[-3000:]
        if res.blocks:
            return "leak", "%d blocks (%d bytes) not released after compiling" % (res.blocks, res.bytes), src, info, res.err[-500:]
        return "ok", "", src, info, b""
    return run


def main(c):
    gens = {}
    for p in SHARED:
        for name, g in dcheck.collect(p).items():
            gens["%s %s" % (p, name)] = (60, 3000, g[2], dict(g[3] if len(g) > 3 else {}, leaks=True))
    gens["typed programs"] = (1500, 60000, typed, {"leaks": True})
    gens["errors at depth"] = (2500, 80000, abort, {"leaks": True})
    gens["closure webs"] = (400, 20000, swarm, {"leaks": True})
    gens["sample programs"] = (300, 2000, corp, {"leaks": True})
    gens["compile only"] = (2500, 100000, broken)
    dcheck.explore(c, gens)
    items = ["C20/%d/%d" % (c.seed, i) for i in range(c.n(3000, 120000))]
    api.exe()
    for seed, st, detail, text, tail, info in work.pmap(owned, items, chunk=16):
        for k, v in info.items():
            c.count(k, v)
        if st == "skip":
            c.count("skipped, host objects, " + detail)
            continue
        c.observe(text, True)
        if st != "ok":
            c.violation(text, "%s (host objects, %s): %s" % (st, seed, detail), text.encode() + tail)


check.main("C20", "distinct programs after which the allocation balance of the deleted state was zero (or the program built a cycle), and distinct programs whose host objects were each destroyed once, never while reachable", main, 3000)
