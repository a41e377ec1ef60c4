"""Programs over large strings, lists, tables and sets: sizes around every power of two up to thousands."""

SIZES = [60, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049]


def size(r, top=2100):
    n = r.choice([x for x in SIZES if x <= top])
    return n + (r.randint(-2, 2) if r.random() < 0.4 else 0)


def _pos(r, n):
    """A place in a collection of n elements."""
    return r.choice([0, 1, n // 2, n - 1, n - 2, r.randrange(n), min(n - 1, r.choice([63, 64, 127, 128, 255, 256, 511, 512]))])


def strings(r):
    n = size(r, 4200) if r.random() < 0.9 else r.choice([4095, 4096, 4097, 8191, 8192, 8193])
    kind = r.choice(["same", "words", "period", "odd one", "odd one", "bytes"])
    out = []
    if kind == "same":
        ch = r.choice("aZ 0.")
        out.append("let s = '%s'->rep(%d)\n" % (ch, n))
        words = [ch, ch * 2, ch * 3]
    elif kind == "words":
        w = r.choice(["ab,", "a b ", "aab", "Word ", "x\\x00y", "0123456789"])
        k = n // max(1, len(eval("'" + w + "'"))) + 1
        out.append("let s = '%s'->rep(%d)[:%d]\n" % (w, k, n))
        words = [w, w[0], "b", w + w, w + w + "q"]
    elif kind == "period":
        a, b = r.randint(1, 140), r.randint(1, 140)
        k = n // (a + b + 1) + 1
        out.append("let s = ('a'->rep(%d) ~ 'b' ~ 'a'->rep(%d))->rep(%d)[:%d]\n" % (a, b, k, n))
        words = ["b", "a", "ab", "ba", "aa", "' ~ 'a'->rep(%d) ~ 'b" % r.randint(1, 150), "b' ~ 'a'->rep(%d) ~ 'b" % (a + b), "' ~ 'a'->rep(%d) ~ '" % r.randint(1, 300)]
    elif kind == "odd one":
        ch, o = r.choice([("a", "b"), ("a", "7"), ("1", "x"), (" ", "z"), ("\\n", " "), ("A", "a"), ("a", "\\x00"), ("\\xff", "\\xfe"), ("1", "_")])
        p = _pos(r, n)
        out.append("let s = '%s'->rep(%d) ~ '%s' ~ '%s'->rep(%d)\n" % (ch, p, o, ch, max(n - p - 1, 0)))
        words = [o, ch + o, o + ch, ch, ch * 3 + o, o + o]
    else:
        out.append("let s = ''\nfor let i = 0; i < %d; i += 1 { s = s ~ ((i * %d) %% %d); }\n" % (min(n // 3 + 1, 700), r.choice([1, 7, 31]), r.choice([10, 97, 997])))
        words = ["1", "12", "00", "99", "5"]
    out.append("fn rep(x) {\n match x {\n  str { if len x <= 700 { echo x; } else { echo len x ~ ' ' ~ x[:300] ~ ' ' ~ x[-300:] ~ ' ' ~ (x == x[:len x // 2] ~ x[len x // 2:]); }; }\n  * { echo x; }\n }\n return x\n}\n")
    if r.random() < 0.3:
        out.append("s = ('%s' ~ s ~ '%s')[%d:%d]\n" % ("p" * 5, "q" * 3, r.randint(3, 6), -r.randint(1, 4)))
    w = lambda: "'" + r.choice(words) + "'"
    for _ in range(r.randint(3, 8)):
        i, j = r.choice(SIZES), r.choice(SIZES)
        out.append(r.choice([
            "rep(len s)\n", "rep(s->count(%s))\n" % w(), "rep(s->search(%s))\n" % w(), "rep(s->replace(%s, %s))\n" % (w(), w()),
            "rep(s->replace(%s, %s, %d))\n" % (w(), w(), r.choice([0, 1, 2, 100, 127, 128, 255, 256, 257])),
            "const p%d = s->split(%s)\nrep(len p%d)\nrep(p%d[-1])\nrep(p%d[0])\nrep(p%d->join(%s))\n" % (i, w(), i, i, i, i, w()) if "p%d =" % i not in "".join(out) else "rep(s)\n",
            "rep(s->trim(%s))\n" % w(), "rep(s->ltrim(%s))\n" % w(), "rep(s->rtrim(%s))\n" % w(), "rep(s->trim())\n", "rep(s->ltrim())\n", "rep(s->rtrim())\n", "rep(len s->split())\n",
            "rep(s->toupper())\n", "rep(s->tolower())\n", "rep([s->isal(), s->isalnum(), s->isnum(), s->isspace(), s->tobool()])\n", "rep(s->tofloat())\n", "rep(s->toint())\n" if n < 900 else "rep(s)\n",
            "rep(s->startswith(s[:%d]))\n" % min(i, 50), "rep([s->startswith(s ~ 'a'), s->endswith(s), s->endswith(s[%d:]), s->startswith(s[:-1])])\n" % min(i, 50),
            "rep([s == s ~ '', s < s ~ 'a', s[:-1] < s, s[1:] > s, s == s[:-1], s[:-1] ~ 'b' == s, s[:-1] ~ '~' > s])\n",
            "rep(s[%d:%d])\n" % (min(i, 40), -r.randint(1, 40)), "rep([len s[1:], len s[:-1], s[-1], s[0], s[len s // 2]])\n",
            "rep(s ~ s)\n", "rep((s ~ %s)->search(%s))\n" % (w(), w()), "rep(s->rep(3))\n", "let n%d = 0\nfor c <- s { if c == %s { n%d += 1; }; }\nrep(n%d)\n" % (j, w(), j, j) if "n%d =" % j not in "".join(out) and n < 2100 else "rep(s[:1])\n",
            "const t%d = {}\nt%d[s] = 1\nt%d[s ~ 'a'] = 2\nt%d[s[:-1]] = 3\nrep([t%d[s], t%d[s[:len s // 2] ~ s[len s // 2:]], t%d[s ~ 'b'], len t%d])\n" % ((j,) * 8) if "t%d =" % j not in "".join(out) else "rep(s)\n",
            "match s {\n 'a' { rep('a'); }\n %s { rep('w'); }\n * { rep('other'); }\n}\n" % w(), "rep(\"<#{s}>\")\n", "rep([s, s] == [s ~ '', s])\n", "rep(len ([s, s] ~ ''))\n",
            "s = s->toupper()\n", "s = s->replace(%s, %s)[:5000]\n" % (w(), w()), "s = s[1:]\n", "s = s ~ %s\n" % w()]))
    out.append("rep(s)\n")
    return "".join(out).encode("latin-1"), {"budget": 150000, "cpu": 5}


def _elem(r):
    m = r.choice([1, 7, 31, 37, 101])
    k = r.choice([2, 10, 64, 97, 256, 1000, 100000])
    return r.choice(["i", "-i", "i * %d %% %d" % (m, k), "i * %d %% %d" % (m, k), "i * %d %% %d - %d" % (m, k, k // 2), "'s' ~ i * %d %% %d" % (m, k), "i %% 3 == 0 ? i * 0.5 : i * %d %% %d" % (m, k),
                     "%d - i" % k, "i // %d" % r.choice([2, 5, 50]), "i * 0.25", "'x'->rep(i * %d %% 9) ~ i %% 4" % m, "i << 32", "i %% %d == 0 ? undef : i" % r.choice([2, 50, 300])])


def lists(r):
    n = size(r)
    e = _elem(r)
    out = ["fn el(i) { return %s; }\n" % e, "fn rep(x) {\n match x {\n  list { echo len x; if len x <= 300 { echo x; } else { echo x[:150]; echo x[-150:]; }; }\n  * { echo x; }\n }\n return x\n}\n"]
    out.append(r.choice(["let l = []\nfor let i = 0; i < %d; i += 1 { l->push(el(i)); }\n" % n,
                         "let l = []\nwhile len l < %d { l->push(el(len l)); }\n" % n,
                         "let l = [el(0)]\nwhile len l < %d { l = l + [el(len l + x) for x <- [0, 1, 2, 3]]; }\nl = l[:%d]\n" % (n, n)] +
                        (["let at = -1\nfn next() {\n at += 1\n return el(at)\n}\nlet l = [next() for x <- 'a'->rep(%d)]\n" % n] if n < 900 else [])))
    p = lambda: _pos(r, n)
    mix = "?" in e
    for q in range(r.randint(3, 8)):
        out.append(r.choice([
            "rep(l)\n", "l->reverse()\n", "const c%d = l->copy()\nrep(c%d == l)\nc%d->push(1)\nrep(c%d == l)\nrep(len l)\n" % ((q,) * 4),
            "l->sort()\n" if not mix else "l->reverse()\n", "const c%d = l->copy()\nc%d->sort()\nrep(c%d)\n" % ((q,) * 3) if not mix else "l->reverse()\n",
            "rep(l->search(el(%d)))\n" % p(), "rep(l->count(el(%d)))\n" % p(), "rep(l->search('nothing'))\n", "rep(l->join(','))\n", "rep(len (l ~ ''))\n",
            "rep(l[%d:%d])\n" % (min(p(), 40), -r.randint(1, 40)), "rep([l[%d], l[-%d], l[len l - 1], l[-len l]])\n" % (min(p(), 39), min(p(), 39) + 1),
            "rep(l[:-1] + l[1:])\n", "rep((l + l)[%d:%d])\n" % (min(p(), 40), n + 10), "rep(l == l + [])\n", "rep([l == l[:-1], l[:-1] == l[:-1], l[1:] == l[:-1]])\n",
            "for let i = 0; i < 30; i += 1 { l->insert(len l // 2, 'i' ~ i); }\nrep(l)\n" if mix else "rep(l)\n", "for let i = 0; i < 20; i += 1 { l->insert(%s, el(i)); }\n" % r.choice(["0", "i", "len l", "-1", "len l // 2"]),
            "let s%d = 0\nfor x <- l { s%d += len ('' ~ x); }\nrep(s%d)\n" % (q, q, q), "for let i = 0; i < 30 && len l > 70; i += 1 { l->pop(); }\n",
            "while len l > %d { l->pop(); }\nrep(l)\n" % r.choice([50, 64, 100, 128, 256]), "l[%d] = el(%d)\nrep(l[%d])\n" % (min(p(), 40), p(), min(p(), 40)),
            "l[-1] = el(7)\nrep(l[-1])\n", "const k%d = [x for x <- l if x != el(%d)]\nrep(len k%d)\n" % (q, p(), q) if n < 600 else "rep(len l)\n",
            "fn va%d(a, b) { return [a, b]; }\nrep(va%d(l->spread()))\n" % (q, q) if n < 600 else "rep(l[0])\n",
            "rep(len [l->spread(), l->spread()])\n" if n < 300 else "rep(l[1])\n",
            "match l {\n [let a, let b, ...] { rep([a, b]); }\n * { rep('no'); }\n}\n", "for x <- l { if x == el(%d) { rep('found'); break; }; }\n" % p(),
            "const m%d = {}\nfor x <- l { m%d[x] = m%d[x] == undef ? 1 : m%d[x] + 1; }\nrep(len m%d)\n" % ((q,) * 5) if "undef" not in e else "rep(len l)\n",
            "const b%d = l\nb%d->push(undef)\nrep([len l, l[-1], l == b%d])\nl->pop()\n" % (q, q, q)]))
    out.append("rep(l)\n%s" % r.choice(["", "l->clear()\nrep(l)\nl->push(1)\nrep(l)\n", "rep(l[%d])\n" % (n * 3), "rep(l[-%d])\n" % (n * 3)]))
    return "".join(out).encode(), {"budget": 250000, "cpu": 5}


def _key(r):
    m = r.choice([1, 2, 7, 31, 32, 64, 97, 1024, 65536])
    return r.choice(["i", "i * %d" % m, "-i * %d" % m, "'k' ~ i", "'' ~ i * %d" % m, "i * 0.5", "i * 0.5 - 10", "i % 2 == 0 ? i : 's' ~ i", "i % 3 == 0 ? i : i % 3 == 1 ? 's' ~ i : i * 0.25", "'x'->rep(i % 90) ~ i", "i << 40", "(i * 7919) % 100003"])


TREP = """fn rep(t) {
 echo 'len ' ~ len t
 let n = 0
 for k <- t { n += 1; if t[k] == undef { echo 'lost ' ~ k; }; }
 echo n
 echo [len t->keys(), len t->values()]
}
fn all(t) {
 for k <- t { echo '~' ~ k ~ '=' ~ t[k]; }
 echo 'end'
}
"""


def tables(r):
    n = size(r, 1100)
    out = ["fn key(i) { return %s; }\nfn val(i) { return %s; }\n" % (_key(r), r.choice(["i", "i * 3", "'v' ~ i", "[i]", "i % 7"])), TREP,
           "fn fill(t, a, b) {\n for let i = a; i < b; i += 1 { t[key(i)] = val(i); }\n return t\n}\n"
           "fn check(t, a, b) {\n let bad = 0\n for let i = a; i < b; i += 1 { if t[key(i)] != val(i) { bad += 1; }; }\n echo 'bad ' ~ bad\n}\n",
           "let t = fill({}, 0, %d)\nrep(t)\ncheck(t, 0, %d)\n" % (n, n)]
    lo = 0
    for q in range(r.randint(2, 5)):
        a = r.randrange(n)
        b = r.randint(a, min(n, a + 300))
        out.append(r.choice([
            "for let i = %d; i < %d; i += 1 { t->remove(key(i)); }\nrep(t)\n" % (a, b), "for let i = %d; i < %d; i += %d { t[key(i)] = undef; }\nrep(t)\n" % (a, n, r.randint(2, 9)),
            "fill(t, %d, %d)\ncheck(t, %d, %d)\nrep(t)\n" % (a, b, a, b), "const c%d = t->copy()\necho c%d == t\nc%d['new'] = 1\necho c%d == t\nrep(c%d)\nc%d->remove('new')\necho c%d == t\n" % ((q,) * 7),
            "const u%d = fill({}, %d, %d) | t\nrep(u%d)\necho u%d == (t | u%d)\n" % (q, a, b + 50, q, q, q), "const u%d = t | fill({}, %d, %d)\nrep(u%d)\nall(u%d)\n" % (q, a, b + 50, q, q),
            "const e%d = {}\nfor k <- t->keys() { e%d[k] = t[k]; }\necho [e%d == t, t == e%d, e%d != t]\ne%d[key(%d)] = 'other'\necho [e%d == t, t == e%d]\n" % ((q,) * 6 + (a,) + (q, q)),
            "all(t)\n", "echo len (t ~ '')\n", "const k%d = t->keys()\nfor k <- k%d { if k != key(%d) { t->remove(k); }; }\nrep(t)\nall(t)\nfill(t, 0, %d)\n" % (q, q, a, n),
            "const w%d = {k: t[k] for k <- t}\necho w%d == t\nrep(w%d)\n" % (q, q, q) if n < 300 else "rep(t)\n",
            "let s%d = 0\nfor v <- t->values() { s%d += len ('' ~ v); }\necho s%d\n" % (q, q, q),
            "t->clear()\nrep(t)\nfill(t, 0, %d)\nrep(t)\ncheck(t, 0, %d)\n" % (n, n), "t[key(%d)] = 'changed'\necho [t[key(%d)], len t]\n" % (a, a),
            "for k <- t { t[k] = val(1); }\nrep(t)\nfill(t, 0, %d)\n" % n]))
    out.append("all(t)\ncheck(t, 0, %d)\n" % n)
    return "".join(out).encode(), {"budget": 250000, "cpu": 5}


def sets(r):
    n = size(r, 1100)
    out = ["fn key(i) { return %s; }\n" % _key(r),
           "fn rep(s) {\n let n = 0\n for x <- s->tolist() { n += 1; if !s[x] { echo 'lost ' ~ x; }; }\n echo [len s, n]\n}\nfn all(s) {\n for x <- s->tolist() { echo '~' ~ x; }\n echo 'end'\n}\n"
           "fn fill(s, a, b, c) {\n for let i = a; i < b; i += c { s->add(key(i)); }\n return s\n}\nfn has(s, a, b) {\n let n = 0\n for let i = a; i < b; i += 1 { if s[key(i)] { n += 1; }; }\n echo n\n}\n",
           "let s = fill(collections.set(), 0, %d, 1)\nrep(s)\n" % n]
    for q in range(r.randint(2, 6)):
        a = r.randrange(n)
        b, c = r.randint(a, n + 50), r.choice([1, 1, 2, 3, 7])
        other = "fill(collections.set(), %d, %d, %d)" % (a, b, c)
        op = r.choice(["|", "&", "^", "&^"])
        out.append(r.choice([
            "for let i = %d; i < %d; i += %d { s->remove(key(i)); }\nrep(s)\n" % (a, b, c), "fill(s, %d, %d, %d)\nrep(s)\nhas(s, 0, %d)\n" % (a, b, c, n + 60),
            "const u%d = s %s %s\nrep(u%d)\nhas(u%d, 0, %d)\n" % (q, op, other, q, q, n + 60), "const u%d = %s %s s\nrep(u%d)\nall(u%d)\n" % (q, other, op, q, q),
            "const o%d = %s\necho [s == o%d, s <= o%d, s >= o%d, s < o%d, s > o%d, o%d <= s, o%d < s]\n" % ((q, other) + (q,) * 7),
            "const c%d = s->copy()\necho [c%d == s, c%d <= s, c%d < s]\nc%d->add('new')\necho [c%d == s, s < c%d, c%d > s, c%d <= s]\nrep(c%d)\n" % ((q,) * 10),
            "const e%d = collections.set()\nfor x <- s->tolist() { e%d->add(x); }\necho [e%d == s, s == e%d, s <= e%d]\ne%d->remove(key(%d))\necho [e%d == s, e%d <= s, e%d < s, len e%d]\n" % ((q,) * 6 + (a,) + (q,) * 4),
            "all(s)\n", "echo len (s ~ '')\n", "s->clear()\nrep(s)\nfill(s, 0, %d, 1)\nrep(s)\n" % n,
            "for x <- s->tolist() { if x != key(%d) { s->remove(x); }; }\nrep(s)\nfill(s, 0, %d, 2)\nall(s)\n" % (a, n), "s = s %s %s\nrep(s)\n" % (op, other),
            "const l%d = s->tolist()\necho len l%d\nconst v%d = collections.set(l%d->spread())\necho v%d == s\n" % ((q,) * 5) if n < 500 else "rep(s)\n",
            "const w%d = collections.table()\nfor x <- s->tolist() { w%d[x] = true; }\necho len w%d == len s\n" % (q, q, q)]))
    out.append("rep(s)\nhas(s, 0, %d)\nall(s)\n" % (n + 60))
    return "".join(out).encode(), {"budget": 250000, "cpu": 5}
