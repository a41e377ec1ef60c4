"""C01: operators give the defined result or error for every operand pair."""
from lib import dcheck, sessions, vals
from lib.sessions import hot

ARITH = ["+", "-", "*", "**", "/", "//", "%"]
BITS = ["|", "^", "&", "&^", "<<", ">>"]
CMP = ["==", "!=", "===", "!==", "<", "<=", ">", ">="]
LOGIC = ["&&", "||", "??"]
ALL = ARITH + BITS + CMP + LOGIC + ["~"]
UN = ["-", "+", "!", "^", "len "]
HEAD = vals.SHOW


def operands(r, op):
    """Types that the operator accepts, mostly."""
    if r.random() < 0.12:
        return r.choice(vals.TYPES), r.choice(vals.TYPES)
    if op in ARITH:
        if op == "+" and r.random() < 0.1:
            return "list", "list"
        if op in ("//", "%"):
            return "int", "int"
        return r.choice([("int", "int"), ("int", "float"), ("float", "int"), ("float", "float")])
    if op in BITS:
        return r.choice([("int", "int")] * 8 + [("set", "set"), ("table", "table")]) if op == "|" else ("int", "int")
    if op in ("<", "<=", ">", ">="):
        return r.choice([("int", "int"), ("int", "float"), ("float", "int"), ("float", "float"), ("str", "str"), ("set", "set")])
    t = r.choice(vals.TYPES)
    return t, (t if r.random() < 0.7 else r.choice(vals.TYPES))


def pairs(r):
    out = [HEAD]
    for i in range(20 if hot(r) else 8):
        if r.random() < 0.2:
            op = r.choice(UN)
            t = {"-": "int float", "+": "int float", "^": "int", "len ": "str list table set", "!": " ".join(vals.TYPES)}[op].split()
            a = vals.val(r, r.choice(t) if r.random() < 0.9 else None)
            out.append("let a%d = %s\nshow(%sa%d)\n" % (i, a, op, i))
        else:
            op = r.choice(ALL)
            ta, tb = operands(r, op)
            if hot(r) and r.random() < 0.4:
                tb = r.choice(vals.TYPES)
            a, b = vals.val(r, ta), vals.val(r, tb)
            if op == "**" and tb == "int" and r.random() < 0.7:
                b = str(r.randint(-3, 66))
            if op in CMP and r.random() < 0.5:
                a, b = vals.near(r)
            elif r.random() < 0.15:
                b = a
            out.append("let a%d = %s\nlet b%d = %s\nshow(a%d %s b%d)\n" % (i, a, i, b, i, op, i))
    return "".join(out).encode("latin-1")


def flat(r):
    """Unparenthesised mixes of operators: grouping is the grammar's."""
    out = [HEAD]
    names = []
    for i in range(6):
        out.append("let v%d = %s\n" % (i, r.choice([str(r.randint(1, 9)), str(r.randint(-9, -1)), vals.rint(r), "%d.5" % r.randint(0, 9)] if i > 2 else [str(r.randint(0, 40))])))
        names.append("v%d" % i)
    ints = names[:3]
    for _ in range(12 if hot(r) else 5):
        kind = r.random()
        if kind < 0.45:
            ops, ns = ["+", "-", "*", "//", "%", "|", "^", "&", "&^", "<<", ">>", "**", "??"], ints
        elif kind < 0.7:
            ops, ns = ["+", "-", "*", "/", "**", "??"], names
        elif kind < 0.9:
            ops, ns = ["+", "-", "*", "|", "&", "<<", "==", "!=", "<", ">=", "&&", "||", "??", "~"], ints
        else:
            ops, ns = ALL, names
        e = []
        for j in range(r.randint(2, 6)):
            if j:
                e.append(r.choice(ops))
            u = r.choice(["", "", "", "", "", "-", "!", "^", "+", "- -"])
            e.append(u + r.choice(ns))
        s = " ".join(e)
        if r.random() < 0.2:
            s += " ? " + r.choice(ns) + " " + r.choice(ops) + " " + r.choice(ns) + " : " + r.choice(ns)
        out.append("show(%s)\n" % s)
    return "".join(out).encode()


def lazy(r):
    """Which operands are evaluated, and in which order."""
    out = [HEAD, "fn t(n, v) {\n echo n\n return v\n}\n"]
    k = 0
    for _ in range(4):
        e = []
        for j in range(r.randint(2, 4)):
            k += 1
            if j:
                e.append(r.choice(["&&", "||", "??", "&&", "||", "==", "~", "<"] if j < 3 else ["&&", "||"]))
            e.append("%st(%d, %s)" % (r.choice(["", "", "!"]), k, vals.val(r, r.choice(["bool", "undef", "str", "int", "float"]))))
        s = " ".join(e)
        if r.random() < 0.3:
            s += " ? t(%d, 1) : t(%d, 2)" % (1000 + k, 2000 + k)
        out.append("show(%s)\n" % s)
    return "".join(out).encode("latin-1")


def grid(r):
    """One operator over a grid of operands of two types."""
    op = r.choice(ALL)
    ta, tb = operands(r, op)
    A = [vals.val(r, ta) for _ in range(5)]
    B = [vals.val(r, tb) for _ in range(5)]
    if op in ("//", "%"):
        B = [b for b in B if b != "0"] or ["1"]
    out = [HEAD, "let A = [%s]\nlet B = [%s]\n" % (", ".join(A), ", ".join(B)),
           "for a <- A {\n for b <- B {\n  show(a %s b)\n }\n}\n" % op]
    return "".join(out).encode("latin-1")


dcheck.main("C01", "distinct generated programs whose operator results (type and exact value) or error kind and line were compared with the reference model",
            {"operand pairs": (5000, 200000, pairs), "mixed operators": (2500, 80000, flat), "evaluated operands": (1500, 40000, lazy),
             "operand grids": (2000, 60000, grid), "sessions of pairs": (500, 20000, sessions.tolerant(pairs)),
             "sessions of operators": (300, 10000, sessions.tolerant(flat)), "sessions of operands": (200, 8000, sessions.tolerant(lazy))})
