"""C21: the embedding stack is a typed stack."""
import collections
from lib import api, check, work
from lib.api import V

INTS = [0, 1, -1, 2, 127, 128, 255, 256, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 53 + 1, 2 ** 63 - 1, -2 ** 63]
FLOATS = [0.0, -0.0, 1.0, 0.5, -1.5, 1e300, 5e-324, float("inf"), float("-inf"), float("nan")]
STRS = [b"", b"a", b"abc", b"\0", b"a\0b", b"\xff\x80", b"tostr", b"%d%s%n", b"x" * 300, b"caf\xc3\xa9", b"\n", b"1", b"true", b"undef", b"a" * 5000]


class Shadow:
    """Random calls on one state, with the lines they have to print."""

    def __init__(self, r, k=0):
        self.r, self.k = r, k
        self.st, self.cmds, self.want = [], [], []
        self.nud = 0
        self.glob, self.mts, self.decl = {}, {}, set()
        self.calls = collections.Counter()

    def do(self, c, out=None):
        self.cmds.append("%d %s" % (self.k, c))
        self.calls[c.split()[0]] += 1
        if out is not None:
            self.want.append(out)

    def push_prim(self):
        r = self.r
        w = r.randrange(6)
        if w == 0:
            v = V("int", r.choice(INTS) if r.random() < 0.7 else r.randint(-2 ** 63, 2 ** 63 - 1))
            self.do("int %d" % v.v)
        elif w == 1:
            v = V("float", r.choice(FLOATS))
            self.do("float %s" % api.fbits(v.v))
        elif w == 2:
            v = V("bool", r.randrange(2))
            self.do("bool %d" % v.v)
        elif w == 3:
            v = V("undef")
            self.do("undef")
        elif w == 4:
            b = r.choice(STRS) if r.random() < 0.7 else bytes(r.randrange(256) for _ in range(r.randrange(20)))
            if r.random() < 0.3:
                b = b.split(b"\0")[0]
                self.do("zstr %s" % api.hexs(b))
            else:
                self.do("lstr %s" % api.hexs(b))
            v = V("str", b)
        else:
            i = r.randrange(len(api.LITS))
            v = V("str", api.LITS[i])
            self.do("lit %d" % i)
        self.st.append(v)
        return v

    def push(self):
        r = self.r
        w = r.random()
        if w < 0.6:
            self.push_prim()
        elif w < 0.7:
            self.do("list")
            self.st.append(V("list", []))
        elif w < 0.8:
            self.do("table")
            self.st.append(V("table", {}))
        elif w < 0.88 and self.nud < 4000:
            t = r.randrange(4)
            self.do("ud %d %d" % (self.nud, t))
            self.st.append(V("ud", self.nud, t))
            self.nud += 1
        elif w < 0.94:
            i = r.randrange(50)
            self.do("uptr %d" % i)
            self.st.append(V("uptr", i))
        else:
            i = r.randrange(8)
            self.do("cfn %d %d" % (i, r.choice([-1, 0, 1, 3])))
            self.st.append(V("cfn", i))

    def cyclic(self, box, v, seen=None):
        """Whether putting v into box would make a cycle (which is never released, by design)."""
        if v is box:
            return True
        if v.t == "list":
            return any(self.cyclic(box, x) for x in v.v)
        if v.t == "table":
            return any(self.cyclic(box, x) for _, x in v.v.values())
        return False

    def step(self):
        r, st = self.r, self.st
        w = r.random()
        if not st or w < 0.3:
            if len(st) < 900:
                return self.push()
        if w < 0.4:
            if st[-1].t == "str" and r.random() < 0.4:
                return self.do("bytes %d" % len(st[-1].v), "bytes " + (st[-1].v + b"\0").hex())
            return self.do("see", api.see(st[-1]))
        if w < 0.5:
            n = r.randrange(len(st))
            return self.do("seen %d" % n, api.seen(n, st[n]))
        if w < 0.62:
            v = st[-1]
            k = r.choice(["pop", "popint", "popbool", "popfloat", "popcstr", "popud", "popuptr"])
            st.pop()
            if k == "pop":
                return self.do("pop")
            if k == "popcstr" and v.t == "str" and r.random() < 0.5:
                return self.do("popbytes %d" % len(v.v), "popbytes " + (v.v + b"\0").hex())
            return self.do(k, k + " " + {
                "popint": str(v.v if v.t == "int" else 0), "popbool": str(v.v if v.t == "bool" else 0),
                "popfloat": api.fbits(v.v) if v.t == "float" else "0", "popcstr": api.cstr(v), "popud": api.udata(v),
                "popuptr": "p%d" % v.v if v.t == "uptr" else "null"}[k])
        if w < 0.67 and len(st) < 900:
            st.append(st[-1])
            return self.do("dup")
        if w < 0.72:
            v = st[-1]
            if v.t in ("str", "list", "table"):
                st[-1] = V("int", len(v.v))
                return self.do("len")
            return
        if w < 0.82:
            if len(st) < 2:
                return
            box, v = st[-2], st[-1]
            if box.t == "list":
                if self.cyclic(box, v):
                    return
                box.v.append(v)
                st.pop()
                return self.do("listpush", "listpush 0")
            if r.random() < 0.2:
                st.pop()
                return self.do("listpush", "listpush 5")
            # make the list the second from the top more often
            if len(st) < 890:
                self.do("list")
                st.append(V("list", []))
                for _ in range(r.randint(0, 4)):
                    x = self.push_prim()
                    st.pop()
                    st[-1].v.append(x)
                    self.do("listpush", "listpush 0")
            return
        if w < 0.87:
            v = st[-1]
            if v.t == "list" and len(st) < 900:
                if not v.v:
                    return
                i = r.randrange(-len(v.v), len(v.v))
                self.do("listget %d" % i, "listget 0")
                st.append(v.v[i])
                return self.do("see", api.see(st[-1]))
            if v.t != "list":
                return self.do("listget 0", "listget 5")
            return
        if w < 0.95:
            return self.table()
        return self.named()

    def table(self):
        r, st = self.r, self.st
        if len(st) > 880:
            return
        if st[-1].t != "table" or r.random() < 0.2:
            if r.random() < 0.1 and len(st) >= 3 and st[-3].t != "table":
                st.pop()
                st.pop()
                return self.do("tableset", "tableset 5")
            self.do("table")
            st.append(V("table", {}))
        t = st[-1]
        for _ in range(r.randint(1, 6)):
            w = r.random()
            if w < 0.65:
                k = self.push_prim()
                if k.t == "undef":
                    self.do("pop")
                    st.pop()
                    continue
                if r.random() < 0.15 and t.v:
                    self.do("pop")
                    st.pop()
                    k = r.choice(sorted(t.v.values(), key=lambda e: repr(e[0].key())))[0]
                    self.literal(k)
                if r.random() < 0.7:
                    v = self.push_prim()
                    if v.t == "undef":
                        self.do("pop")
                        st.pop()
                        v = V("int", 5)
                        self.literal(v)
                else:
                    self.do("list")
                    v = V("list", [])
                    st.append(v)
                st.pop()
                st.pop()
                self.do("tableset", "tableset 0")
                old = t.v.get(k.key())
                t.v[k.key()] = (old[0] if old else k, v)
            elif w < 0.75:
                self.do("list")
                self.do("int 3")
                self.do("tableset", "tableset 5")
            else:
                self.do("walk", ("walk", [(api.see(v), api.see(k)) for k, v in t.v.values()]))
        if r.random() < 0.5:
            self.do("dup")
            self.do("len")
            self.do("popint", "popint %d" % len(t.v))

    def literal(self, v):
        self.st.append(v)
        self.do({"int": lambda: "int %d" % v.v, "float": lambda: "float " + api.fbits(v.v), "bool": lambda: "bool %d" % v.v,
                 "str": lambda: "lstr " + api.hexs(v.v)}[v.t]())

    def named(self):
        r, st = self.r, self.st
        n = r.choice(["g0", "g1", "longer_name", "x", "tostr"])
        w = r.random()
        if w < 0.15 and self.konst:
            if r.random() < 0.6 or len(st) > 900:
                return self.do("setg kc", "setg 2")
            st.append(V("int", 5))
            self.do("loadg kc", "loadg 0")
            return self.do("see", api.see(st[-1]))
        if w < 0.25:
            self.decl.add(n)
            return self.do("decl %s" % n, "decl 0")
        if w < 0.55:
            if n not in self.decl:
                return self.do("setg %s" % n, "setg 2")
            self.glob[n] = st.pop()
            return self.do("setg %s" % n, "setg 0")
        if w < 0.8:
            if n not in self.glob:
                return self.do("loadg never_%s" % n, "loadg 2")
            if len(st) < 900:
                st.append(self.glob[n])
                self.do("loadg %s" % n, "loadg 0")
                self.do("see", api.see(st[-1]))
            return
        if w < 0.9:
            self.mts[n] = st.pop()
            return self.do("regmt m%s" % n, "regmt 0")
        if n in self.mts and len(st) < 900:
            st.append(self.mts[n])
            self.do("loadmt m%s" % n, "loadmt 0")
            return self.do("see", api.see(st[-1]))
        return self.do("loadmt nope%s" % n, "loadmt 2")

    def live(self):
        """Ids of host data something still refers to."""
        seen, out = set(), set()
        todo = list(self.st) + list(self.glob.values()) + list(self.mts.values())
        while todo:
            v = todo.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if v.t == "ud":
                out.add(v.v)
            elif v.t == "list":
                todo += v.v
            elif v.t == "table":
                todo += [x for _, x in v.v.values()]
        return out


def judge(sh, lines):
    """Compares the printed lines with the shadow's."""
    it = iter([l for l in lines if not l.startswith("destroy ")])
    if next(it, None) != "start":
        return "no start"
    for n, w in enumerate(sh.want):
        if w is None:
            continue
        if isinstance(w, tuple):
            got = []
            l = next(it, None)
            while l is not None and l.startswith("see "):
                got.append((l, next(it, None)))
                l = next(it, None)
            if l != "walked %d" % len(w[1]) or sorted(got) != sorted(w[1]):
                return "walking a table of %d entries visited %d: missing %r, extra %r" % (len(w[1]), len(got), sorted(set(w[1]) - set(got))[:2], sorted(set(got) - set(w[1]))[:2])
            continue
        l = next(it, None)
        if l != w:
            return "observation %d: %r, expected %r" % (n, l, w)
    l = next(it, None)
    if l is not None:
        return "unexpected %r" % l
    return None


def one(seed):
    import random
    r = random.Random(seed)
    sh = Shadow(r)
    new = "0 new -"
    script = [new]
    checks = []
    sh.konst = r.random() < 0.3
    if sh.konst:    # globals of an interactive source, one of them constant
        sh.do("reset %s" % api.hexs("const kc = 5\nlet x = 6\n"), "reset 0")
        sh.do("repl", "repl 0")
        sh.decl.add("x")
        sh.glob["x"] = V("int", 6)
    for _ in range(r.choice([20, 100, 400, 1500])):
        sh.step()
        if r.random() < 0.05:
            # destructors that ran up to here must belong to values nothing refers to
            sh.do("say m%d" % len(checks), "say m%d" % len(checks))
            checks.append(sh.live())
    if r.random() < 0.5:
        # scripts see exactly the strings and numbers that were stored
        src, want = "", []
        for n, v in sorted(sh.glob.items()):
            if v.t == "str":
                src += "echo %s == '%s'\necho len %s\n" % (n, "".join("\\x%02x" % b for b in v.v), n)
                want += ["true", str(len(v.v))]
            elif v.t == "int":
                src += "echo %s\n" % n
                want.append(str(v.v))
        for n, v in sorted(sh.glob.items()):
            sh.do("undef")
            sh.st.append(V("undef"))
            if v.t in ("bool", "undef"):
                src += "echo %s\n" % n
                want.append({"undef": "undef", "bool": "true" if v.v else "false"}[v.t])
        sh.do("reset %s" % api.hexs(src), "reset 0")
        for w in want:
            sh.want.append(w)
        sh.do("exec", "exec 0")
    if r.random() < 0.7:
        while sh.st:
            v = sh.st.pop()
            sh.do("see", api.see(v))
            sh.do("pop")
    sh.do("del", "del 0")
    sh.calls["new"] += 1
    src = "\n".join([new] + sh.cmds) + "\n"
    res = api.run(src)
    body = src.encode()
    tail = b"\n# ---- stdout ----\n" + res.out[-3000:] + b"\n# ---- stderr ----\n" + res.err[-3000:]
    if res.san or res.signal or not res.done:
        return seed, "memory", res.san or "signal %s status %s" % (res.signal, res.code), body, tail, sh.calls
    lines = res.out.decode("latin-1").split("\n")[:-1]
    bad = judge(sh, lines)
    if bad:
        return seed, "stack", bad, body, tail, sh.calls
    dead, m = [], 0
    for l in lines:
        if l.startswith("destroy "):
            dead.append(int(l[8:]))
        elif l.startswith("say m"):
            early = set(dead) & checks[int(l[5:])]
            if early:
                return seed, "destroyed early", "host data %s destroyed while still referred to" % sorted(early)[:3], body, tail, sh.calls
    if sorted(dead) != list(range(sh.nud)):
        return seed, "destructors", "host data pushed %d times, destroyed %d times (%d distinct)" % (sh.nud, len(dead), len(set(dead))), body, tail, sh.calls
    if res.blocks:
        return seed, "leak", "%d blocks not released by deleting the state" % res.blocks, body, tail, sh.calls
    return seed, "ok", "", body, b"", sh.calls


def main(c):
    api.exe()
    n = c.n(6000, 120000)
    for seed, st, detail, body, tail, calls in work.pmap(one, ["C21/%d/%d" % (c.seed, i) for i in range(n)], chunk=16):
        for k, v in calls.items():
            c.count("calls of " + k, v)
        c.observe(body, True, body[:600])
        if st != "ok":
            c.violation(seed, "%s: %s" % (st, detail), body + tail)


check.main("C21", "one case = one random history of calls of the public stack, list, table, global and metatable functions on a state, every observation equal to a shadow stack's; distinct histories counted", main, 300)
