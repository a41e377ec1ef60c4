"""Sessions: sources given to one state one after the other, against the reference session.

tolerant(gen) turns a generator of programs into one of sessions whose sources are the program's
top-level statements: a failing statement does not end the session, so what it left behind is seen.
"""
import os, re
from . import api, diff, yaslref as R, yaslparse as Y


def judge(seq, outs, got):
    """seq: modes; outs: model outcomes; got: [(code, stdout, stderr)]"""
    if len(got) != len(outs):
        return "events", "%d sources ran, expected %d" % (len(got), len(outs))
    for i, (o, (code, out, err)) in enumerate(zip(outs, got)):
        if code is not None and code != o.code:
            return "status", "source %d: status %d, expected %d (%s)" % (i + 1, code, o.code, (o.kind or b"success").decode())
        if R.canon(out) != o.out:
            return "output", "source %d: %s" % (i + 1, diff.diff_out(o.out, R.canon(out)))
        if err is None:
            continue
        if o.code == 4 and not err.strip():
            return "diagnostic", "source %d rejected without a diagnostic" % (i + 1)
        if o.code == 0 and err:
            return "stderr", "source %d succeeded with diagnostics %r" % (i + 1, err[:200])
        if o.code not in (0, 4):
            k, line, tr = R.parse_err(err)
            if k != o.kind:
                return "kind", "source %d: error kind %s, expected %s" % (i + 1, k, o.kind)
            if not o.lines_ok(line, o.trace):
                return "line", "source %d: reported on line %s, expected %s" % (i + 1, line, o.line)
            if not o.lines_ok(line, tr):
                return "trace", "source %d: call lines %s, expected %s" % (i + 1, tr, o.trace)
    return None


def viaapi(seq, files=False, globals_=(), cpu=10):
    """Runs [(source, interactive)] on one state through the interface: (Result, [(code, out, err)])."""
    s = "0 new -\n0 libs\n" + "".join("0 decl %s\n0 undef\n0 setg %s\n" % (g, g) for g in globals_)
    for i, (src, inter) in enumerate(seq):
        if files and not inter:
            srv = api.server()
            with open(os.path.join(srv.dir, "r%d.yasl" % i), "wb") as f:
                f.write(src)
            s += "0 resetf r%d.yasl\n" % i
        else:
            s += "0 reset %s\n" % api.hexs(src)
        s += "0 both zQ7k%d\n0 %s\n0 both zQ7kend\n" % (i, "repl" if inter else "exec")
    res = api.run(s + "0 del\n0 blocks\n", cpu=cpu)
    parts = []
    for data in (res.out, res.err):
        d = {}
        ms = list(re.finditer(rb"@@zQ7k(\d+|end)\n", data))
        for a, b in zip(ms, ms[1:]):
            if a.group(1) != b"end":
                d[int(a.group(1))] = data[a.end():b.start()]
        parts.append(d)
    got = []
    for i in range(len(seq)):
        if i not in parts[0]:
            break
        o = parts[0][i]
        m = re.search(rb"(?:repl|exec) (\d+)\n$", o)
        if not m:
            break
        got.append((int(m.group(1)), o[:m.start()], parts[1].get(i, b"")))
    return res, got


def blocks(res):
    m = re.search(rb"blocks (-?\d+)\n", res.out)
    return int(m.group(1)) if m else None


def text(seq):
    return b"".join(b"#### %s\n%s\n" % (b"interactive" if i else b"program", s) for s, i in seq)


def model(seq, setup=None, budget=60000):
    try:
        return R.session(seq, setup, budget)
    except R.Unspec as e:
        return str(e)
    except Exception as e:
        if os.environ.get("VERIF_DEBUG"):
            raise
        return "model: %s" % type(e).__name__


def compare(seq, budget=60000):
    R.MADE = []
    try:
        outs = model(seq, budget=budget)
        cyc = R.cyclic(R.MADE)
    finally:
        R.MADE = None
    if isinstance(outs, str):
        return "skip", outs, None, None, None
    res, got = viaapi(seq)
    if res.san:
        return "memory", res.san, outs, res, got
    if res.hung:
        return "hang", "no end within the CPU limit", outs, res, got
    if res.timeout or res.oom:
        return "skip", "limit", None, None, None
    m = judge(seq, outs, got)
    if not m and blocks(res) and not cyc:
        m = "leak", "%d blocks not released" % blocks(res)
    return (m or ("ok", "")) + (outs, res, got)


def split(src):
    """The top-level statements of a program as separate sources."""
    out, cur = [], []
    for l in src.split(b"\n"):
        cur.append(l)
        t = b"\n".join(cur)
        if not t.strip():
            cur = []
            continue
        if len(cur) > 60:
            return None
        try:
            Y.parse(t + b"\n")
        except Y.Reject:
            continue
        out.append(t + b"\n")
        cur = []
    return None if cur else out


def tolerant(gen, quiet=0.7):
    """A generator of sessions: the statements of gen's programs; most expression statements are not echoed.
    Generators that look at r.hot make more operations, and more that fail."""
    def make(r):
        r.hot = True
        src = gen(r)
        if isinstance(src, tuple):
            src = src[0]
        ps = split(src)
        if not ps:
            return lambda: ("skip", "not split", src, {}, b"")
        if r.random() < quiet:
            ps = [p + b"''\n" for p in ps]
        seq = [(p, True) for p in ps]

        def run():
            st, det, outs, res, got = compare(seq)
            if st == "skip":
                return st, det, src, {}, b""
            info = {"sources in sessions": len(seq), "sources failed": sum(o.code != 0 for o in outs), "bytes of output compared": sum(len(o.out) for o in outs)}
            if st == "ok":
                return st, det, text(seq), info, b""
            cur = seq
            n, step = 0, max(1, len(cur) // 2)
            while step and n < 120:
                i = 0
                while i < len(cur) and n < 120:
                    cand = cur[:i] + cur[i + step:]
                    n += 1
                    if cand and compare(cand)[0] == st:
                        cur = cand
                    else:
                        i += step
                step //= 2
            a = compare(cur)
            if a[0] == st:
                st, det, outs, res, got = a
            else:
                cur = seq
            tail = b"\n# ---- expected ----\n" + b"".join(b"#%d: %d %s %s %s\n" % (i + 1, o.code, o.kind or b"", str(o.line).encode(), o.out) for i, o in enumerate(outs))[-2500:] + \
                b"\n# ---- observed ----\n" + b"".join(b"#%d: %d %s\n" % (i + 1, g[0], g[1]) for i, g in enumerate(got))[-2500:] + b"\n# stderr\n" + res.err[-2500:]
            return st, det, text(cur), info, tail
        return run
    return make


def hot(r):
    return getattr(r, "hot", False)
