"""Hostile source texts: mutated corpus, token soup, random bytes, built-in call chains."""
import re
from . import corpus

TOKENS = """break const continue else elseif export fn for if echo let return undef while len assert match
true false header global enum struct pragma yield do ifdef use no pure in typename extern
... <<= >>= === !== **= //= &&= &^= ||= ??= := ^= += -= -> == =~ != !~ ~= *= ** /= // %= <= << <- >= >> &= && &^ |=
|| ?? ; ( ) [ ] { } . , ^ + - ! ~ * / % < > = & | ? : \n \n \n # /* */ ' " ` #{ } .x ->y x y z a f g 0 1 2 -1
0x 0b1 0xFF_F 1.5 1e5 1.0e9 9223372036854775807 99999999999999999999 'abc' "a#{x}b" `raw` '\\x41' '\\n' '\\q' io math mt collections
.str .int .list .table .undef .bool .float error require args list str""".split(" ")
TOKENS = [t for l in TOKENS for t in (l.split("\n") if l != "\n" else ["\n"]) if t] + ["\n", "\n", " "]
TOK_RE = re.compile(rb"[A-Za-z_$][\w$]*|\d[\w.]*|'[^'\n]*'|\"[^\"\n]*\"|`[^`]*`|#[^\n]*\n|\s+|[<>=!&|*/^?.:~+-]{1,3}|.", re.S)

VALS = ["undef", "true", "false", "0", "1", "-1", "2", "7", "9223372036854775807", "(-9223372036854775807-1)",
        "4294967296", "1.5", "-0.0", "math.nan", "math.inf", "-math.inf", "1.0e300", "''", "'a'", "'abc'", "' a b '",
        "'x' ~ 'y'", "'\\0'", "'\\xff\\x00z'", "'0x'", "'0b'", "'1_0'", "'-'", "'1.5e3'", "'%s%n'", "'abcabcabc'->rep(9)", "[]", "[1]", "[1, 2, 3]",
        "['a', 'b', undef]", "[[1], [2]]", "{}", "{1: 2}", "{'a': 'b', 2: 3, 1.5: [1]}", "(fn() { return 1; })",
        "(fn(a, b) { return b, a; })", "echo_", "collections.set(1, 2, 'a')", "collections.set()", "math", "mt.set({}, {.__get: fn(s, k) { return k; }})",
        "mt.set([], {.__eq: fn(a, b) { return 1; }, .__len: fn(a) { return 'x'; }, .tostr: fn(a) { return 5; }})",
        "mt.set({}, {.__call: fn(a) { return a; }, .__set: fn(s, k, v) { return 1; }, .__add: 5, .__gt: fn(a, b) { return []; }})", "self", "io.stdout", "math.abs"]
STR = "tofloat toint tobool tostr toupper tolower isal isnum isalnum isspace startswith endswith replace search count split ltrim rtrim trim rep __get spread".split()
LIST = "push copy __add __eq __bor pop search reverse clear sort join tostr spread count insert __get __set extend remove".split()
TABLE = "remove keys values copy clear tostr __bor __eq __len __get __set x".split()
SET = "add remove copy clear tolist tostr __band __bor __bxor __bandnot __eq __gt __ge __lt __le __len __get".split()
FILE = "close read write tostr flush seek".split()
LIBF = ["math." + x for x in "abs exp log sqrt sin cos tan asin acos atan ceil floor max min deg rad isprime gcd lcm rand".split()] \
    + ["collections.list", "collections.set", "collections.table", "mt.get", "mt.set", "mt.setmetatable", "io.open", "error", "require", "eval"]
METHODS = {"s": STR, "l": LIST, "t": TABLE, "c": SET, "f": FILE, "n": ["toint", "tofloat", "tobool", "tostr"]}
BIN = "+ - * / // % ** << >> & | ^ &^ ~ == != === !== < > <= >= && || ?? && ||".split()
PRE = """let echo_ = fn(a) { return a; }
let self = []
self->push(self)
"""


def recv(r):
    k = r.choice("sssllltttccfn")
    v = {"s": ["'abcabc'", "''", "'a,b,,c'", "' \\t x \\n'", "'a' ~ 'b' ~ 'c'", "'\\x00\\xff'", "'12'", "('abcdefgh')[2:5]"],
         "l": ["[]", "[1, 2, 3]", "['b', 'a', 'c']", "[1, 'a', undef]", "self", "[1.5, 1, math.nan, -0.0]", "[[1, 2], [3]]"],
         "t": ["{}", "{1: 2, 'a': 'b'}", "{undef: 1}", "{1.0: 1, 1: 2}", "{.x: fn(a) { return a; }}"],
         "c": ["collections.set()", "collections.set(1, 2, 3)", "collections.set('a', 1.5, true)"],
         "f": ["io.stdout", "io.stderr", "io.stdin", "io.open('s.txt', 'w+')", "io.open('s.txt', 'r')", "io.open('s.txt', 'a+')", "io.open('nope')"],
         "n": ["1", "-1.5", "true", "undef", "9223372036854775807", "math.nan"]}[k]
    return k, r.choice(v)


def args(r, lo=0, hi=4):
    n = r.choice([0, 1, 1, 1, 2, 2, 3, 4])
    return ", ".join(r.choice(VALS) for _ in range(n))


def chain(r):
    """Several built-in operations, mostly hostile, on one object."""
    k, v = recv(r)
    out = [PRE, "let o = %s\n" % v]
    cur = "o"
    for i in range(r.randint(1, 5)):
        w = r.random()
        m = r.choice(METHODS[k])
        if w < 0.55:
            e = "%s->%s(%s)" % (cur, m, args(r))
        elif w < 0.62:
            kk = r.choice(sorted(METHODS))
            e = "%s->%s(%s)" % (cur, r.choice(METHODS[kk]), args(r))
        elif w < 0.68:
            e = "%s[%s]" % (cur, r.choice(VALS))
        elif w < 0.74:
            e = "%s[%s:%s]" % (cur, r.choice(VALS + [""]), r.choice(VALS + [""]))
        elif w < 0.8:
            e = "%s %s %s" % (cur, r.choice(BIN), r.choice(VALS))
        elif w < 0.84:
            e = "%s %s %s" % (r.choice(VALS), r.choice(BIN), cur)
        elif w < 0.88:
            out.append("%s[%s] = %s\n" % (cur, r.choice(VALS), r.choice(VALS)))
            continue
        elif w < 0.92:
            out.append("for q%d <- %s { %s->%s(%s); if q%d == 2 { break; }; }\n" % (i, cur, cur, m, args(r), i))
            continue
        elif w < 0.96:
            e = "%s(%s)" % (r.choice(LIBF), ", ".join([cur] * r.randint(0, 2) + [r.choice(VALS)] * r.randint(0, 2)))
        else:
            e = r.choice(["len ", "-", "!", "^", "+"]) + cur
        z = r.random()
        if z < 0.4:
            out.append("echo %s\n" % e)
        elif z < 0.8:
            out.append("let v%d = %s\n" % (i, e))
            if r.random() < 0.5:
                cur = "v%d" % i
        else:
            out.append("%s\n" % e)
    out.append("echo %s\n" % cur)
    return "".join(out).encode("latin-1")


ACTS = """l->pop()|l->push(o)|l->push(l)|l->clear()|l = []|l = undef|l[0] = undef|l[0] = [o]|l->insert(0, 'new')|for i <- [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17] { l->push('g' ~ i); }
while len l > 1 { l->pop(); }|l->reverse()|l = l + l|t->clear()|t = {}|t = undef|t['k'] = undef|t['k'] = [1, 'x']|t['new' ~ n] = o|t->remove('k')|for i <- [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17] { t[i] = 'g' ~ i; }
c->clear()|c = collections.set()|c->add('new' ~ n)|c->remove('b')|for i <- [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17] { c->add(i); }|o = undef|o = mk()|M = {}
s = s ~ s|s = undef|mt.set(l, ML)|mt.set(t, M)|mt.set(o, {})|mt.set(o, mt.get(l))|hold->push(l); l = [o, o]|hold->push(a)|hold = []|echo '' ~ o|echo l|echo t|o == mk()|l->join()|l->search(o)|t == {'k': o}|a[0] = o|b[0] = a""".replace("\n", "|").split("|")
RETS = ["x", "'text'", "'r' ~ n", "n", "undef", "[x]", "true", "false", "o", "l", "t", "1.5", "(fn() { return n; })", "''", "y"]
WITH = ["__eq", "tostr", "__get", "__set", "__len", "__call", "__lt", "__gt", "__add", "__bor", "__neg", "foo", "__le", "__ge", "__pow", "__band", "push", "copy", "keys"]
USES = """echo l|echo t|echo c|echo o|echo [l, t, o]|echo l->join(',')|echo l->tostr()|echo t->tostr()|echo l == m|echo m == l|echo l != [o, o, o]|echo t == u|echo u == t|echo [t] == [u]|echo l->search(o)|echo l->search(mk())|echo l->count(o)|echo l->count(mk())|l->remove(0)|echo l + m
for x <- l { echo x ~ ''; }|for x <- t { echo t[x] ~ ''; }|for x <- l { x == o; }|for x <- m { x->foo(1); l = m; }|echo [x ~ '' for x <- l]|echo {x: t[x] ~ 1 for x <- t}|echo [o.k for x <- l if o == x]|echo t | u|echo c | c|echo 's' ~ l ~ t|echo "a#{l}b#{o}c#{t}d"|echo l[0] ~ l[1]|echo o ~ l->pop()
echo o[l->pop()]|o['k'] = l->pop()|o.k = o|o[0] = t|l[0] = '' ~ o|l[len o] = 1|t['k'] = '' ~ o|t[o ~ ''] = o|echo len o|echo o(l, t, o)|echo o(l->pop(), o, o->foo())|echo o->foo(l, o)|echo o + o|echo o | l|echo -o|echo o < o|echo o >= l|echo o ** o|echo l->push(o ~ '')|echo l->insert(0, o ~ '')|echo [o ~ '', l, o ~ '', l]
echo {'k': o ~ '', 'j': l, 'i': t}|match l { [*, let z, ...] if z == o { echo z; }; * { echo 'no'; }; }|match l { [let z, ...] if '' ~ o { echo z ~ ''; }; [*, let w, *] { echo w ~ ''; }; * { echo o ~ ''; }; }|match t { {.k: let z, ...} if o == z { echo z ~ l; }; * { echo '' ~ o; }; }
echo s->split('' ~ o)|echo s->replace('a', o ~ '')|echo [o, o]->join('' ~ o)|echo l->spread()|echo collections.list(l->spread(), o ~ '')|echo collections.set('' ~ o, l)|echo math.max(1, len o)|assert o == o|assert '' ~ o == ''|echo l->copy()|echo t->copy()|echo t->values()|echo t->keys()|echo o === l|o += o|l += m|s ~= o|let z1 = o.k ?? l
echo o && l|echo [[o], [o]] == [[o], [mk()]]|echo {'a': [o]} == {'a': [mk()]}|echo l->extend(l)|echo a == b|echo b == a|echo [a, l] == [b, l]|echo io.stdout->write('' ~ o)|echo mt.get(o)|mt.set(o, M)|echo (o ?? 1) ~ ''|t->remove(o)|echo o->keys()|echo o->copy()|l->push(o)->push('' ~ o)""".replace("\n", "|").split("|")


HOT = ["l->clear()", "l = undef", "l = []", "while len l > 1 { l->pop(); }", "t->clear()", "t = undef", "c->clear()", "t->remove('k')", "m->clear()", "u->clear()", "a->clear()", "b->clear()", "s = s ~ 'x'", "o = undef", "c = undef"]


def reenter(r):
    """Operations that call the program's own functions, which change what is being worked on."""
    def acts(k):
        return "".join(" %s\n" % r.choice(HOT if r.random() < 0.4 else ACTS) for _ in range(k))

    good = {"__eq": ["true", "true", "true", "false"], "tostr": ["'text'", "'r' ~ n", "''", "s"], "__len": ["n", "2", "0"], "__lt": ["true", "false"], "__gt": ["true", "false"], "__le": ["true"], "__ge": ["false"], "keys": ["['k']", "[x]"], "__get": ["x", "o", "l", "fn() { return n; }"]}

    def body(params, e):
        x = " n += 1\n if n > %d { return %s; }\n" % (r.choice([5, 20, 60]), r.choice(["'end'", "true", "n", "undef"])) + (acts(r.randint(1, 3)) if r.random() < 0.8 else "")
        if e in good and r.random() < 0.85:
            return x + " return %s\n" % r.choice(good[e])
        return x + " return %s\n" % (r.choice(RETS) if "y" in params else r.choice([q for q in RETS if q != "y"]))
    out = ["let n = 0\nlet M = %s\nlet ML = mt.get({}).__bor({}, mt.get([]))\nlet hold = []\nlet s = 'abca'\nlet l = []\nlet t = {}\nlet m = []\nlet u = {}\nlet a = [1]\nlet b = [1]\nlet c = collections.set(1, 'b', 2.5)\nlet o = undef\n" % r.choice(["{}", "mt.get({}).__bor({}, mt.get({}))", "mt.get({}).__bor({}, mt.get({}))"]),
           "fn mk() { return mt.set(%s, M); }\n" % r.choice(["{}", "{.k: 1}", "[]", "[1, 2]", "{'k': [1]}"])]
    for e in r.sample(WITH, r.randint(1, 6)) + (["tostr", "__eq", "__len", "__lt", "__ge", "__get", "__set", "__call", "__add", "foo"] if r.random() < 0.8 else ["tostr", "__eq"]):
        out.append("M.%s = fn(x%s) {\n%s}\n" % (e, r.choice([", y", ", y", ", y, z", ""]) if True else "", "@@"))
        out[-1] = out[-1].replace("@@", body("xy" if ", y" in out[-1] else "x", e))
        out.append("ML.%s = M.%s\n" % (e, e) if r.random() < 0.5 else "")
    for v, e in r.sample([("''", "tostr"), ("1", "tostr"), ("1.5", "tostr"), ("[]", "__eq"), ("{}", "__eq"), ("[]", "tostr"), ("{}", "tostr"), ("collections.set()", "tostr"), ("collections.set()", "__bor"), ("{}", "__get"), ("[]", "__get"), ("[]", "__len"),
                          ("''", "__len"), ("''", "replace"), ("[]", "push"), ("{}", "copy"), ("1", "tostr"), ("''", "tostr")], r.choice([0, 0, 1, 1, 2, 3])):
        out.append("let B%d = mt.get(%s)\nmt.set(B%d, mt.get({}))\nB%d.%s = fn(x, y) {\n%s}\n" % (len(out), v, len(out), len(out), e, body("xy", e)))
    k = r.choice([1, 2, 3, 3, 8, 17])
    kinds = r.choice([["o", "mk()", "1", "'a'", "[o]"], ["o", "mk()"], ["1", "'a'", "2.5"], ["'x' ~ n", "'y' ~ l", "'z'->rep(4)"]])
    out.append("o = mk()\nl = [%s]\nm = [%s]\n" % (", ".join(r.choice(kinds) for _ in range(k)), ", ".join(r.choice(["o", "mk()", "mk()", "1"]) for _ in range(k))))
    out.append("t = {'k': o, 'j': mk(), 1: [o]}\nu = {'k': mk(), 'j': o, 1: [mk()]}\na = [mk(), mk()]\nb = [mk(), mk()]\n" if r.random() < 0.8 else "t = {'k': o}\nu = {'k': mk()}\n")
    if r.random() < 0.2:
        out.append(r.choice(["mt.set(l, ML)\n", "mt.set(t, M)\n", "mt.set(M, M)\n", "l->push(l)\n", "a->push(b); b->push(a)\n"]))
    fn = r.random() < 0.3
    if fn:
        out.append("fn f(p) {\n let l = p\n let t = {'k': o}\n" if r.random() < 0.5 else "fn f(p) {\n")
    for _ in range(r.randint(1, 6)):
        out.append("n = 0\n%s\n" % r.choice(USES))
        if r.random() < 0.1:
            out.append(acts(1))
    if fn:
        out.append("}\nf(l)\n")
    out.append("echo n\n")
    return "".join(out).encode()


def mutate(r):
    ps = corpus.programs()
    src = r.choice(ps)[1]
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        w = r.random()
        if w < 0.15 and src:
            i = r.randrange(len(src))
            src = src[:i] + bytes([r.choice([0, 10, 34, 39, 92, 35, 123, 125, 255, 128, r.randrange(256)])]) + src[i + r.randint(0, 1):]
        elif w < 0.2:
            src = src[:r.randint(0, len(src))]
            if r.random() < 0.5:
                src += b"\n"
        else:
            t = TOK_RE.findall(src)
            if not t:
                src = b"echo 1\n"
                continue
            i = r.randrange(len(t))
            if w < 0.4:
                del t[i:i + r.choice([1, 1, 2, 5])]
            elif w < 0.55:
                t[i] = r.choice(TOKENS).encode()
            elif w < 0.65:
                t.insert(i, b" " + r.choice(TOKENS).encode() + b" ")
            elif w < 0.75:
                j = r.randrange(len(t))
                t[i], t[j] = t[j], t[i]
            elif w < 0.85:
                j = min(len(t), i + r.randint(1, 30))
                k = r.randrange(len(t))
                t[k:k] = t[i:j]
            elif w < 0.93:
                t[i] = r.choice(VALS).encode()
            else:
                o = TOK_RE.findall(r.choice(ps)[1])
                if o:
                    k = r.randrange(len(o))
                    t[i:i] = o[k:k + r.randint(1, 40)]
            src = b"".join(t)
    return src


def soup(r):
    n = r.choice([3, 8, 20, 60])
    return (" ".join(r.choice(TOKENS) for _ in range(n)) + r.choice(["", "\n"])).encode()


def noise(r):
    n = r.choice([1, 2, 5, 20, 200])
    k = r.random()
    if k < 0.3:
        return bytes(r.randrange(256) for _ in range(n))
    if k < 0.6:
        return bytes(r.choice(b"'\"`#{}\\x0 \n()[]1_.eab/*;=") for _ in range(n))
    return b"let x = " + bytes(r.choice(b"'\"`#{}\\x0()[]1_.eab/*;=-+") for _ in range(n)) + b"\n"
