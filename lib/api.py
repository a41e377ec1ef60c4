"""Python side of harness/api.c: scripts of calls of the public C interface, with a shadow of the stack."""
import math, struct
from . import build, runner, work

TAGS = ["tag.zero", "tag.one", "file-like", ""]
LITS = [b"", b"a", b"literal", b"with space", b"tostr", b"0123456789012345678901234567890123456789"]
TYPES = {"undef": 0, "float": 1, "int": 2, "bool": 3, "str": 4, "list": 6, "table": 8, "cfn": 12, "uptr": 13, "ud": 14}
NAMES = {"cfn": "fn", "uptr": "userptr"}


def exe(variant="asan"):
    return build.build("api", variant, ldextra=build.ALLOC_WRAP)


def server(variant="asan"):
    k = "api-" + variant
    if k not in work._srv:
        work._srv[k] = runner.Server(exe(variant))
    return work._srv[k]


def run(script, cpu=10, variant="asan", **kw):
    if isinstance(script, str):
        script = script.encode("latin-1")
    return server(variant).call(["api"], stdin=script, cpu=cpu, **kw)


def hexs(b):
    if isinstance(b, str):
        b = b.encode("latin-1")
    return b.hex() or "-"


def fbits(x):
    return "%x" % struct.unpack("<Q", struct.pack("<d", x))[0]


class V:
    """A value: type, content."""
    __slots__ = ("t", "v", "tag")

    def __init__(self, t, v=None, tag=None):
        self.t, self.v, self.tag = t, v, tag

    def key(self):
        if self.t == "float":
            return ("float", fbits(self.v) if self.v == self.v else "nan")
        return (self.t, self.v)


def name(v):
    return TAGS[v.tag] if v.t == "ud" else NAMES.get(v.t, v.t)


def preds(v):
    return "".join("1" if v.t == t else "0" for t in ("undef", "bool", "int", "float", "str", "list", "table", "uptr")) + \
        "".join("1" if v.t == "ud" and v.tag == i else "0" for i in range(4))


def neutral(v):
    return "%d %d %s" % (v.v if v.t == "bool" else 0, v.v if v.t == "int" else 0, fbits(v.v) if v.t == "float" else "0")


def udata(v):
    return "u%d" % v.v if v.t == "ud" else "other" if v.t in ("list", "table") else "null"


def cstr(v):
    if v.t != "str":
        return "null"
    return hexs(v.v.split(b"\0")[0])


def see(v):
    return "see %s %s %s %s %s %s t%d" % (name(v), preds(v), neutral(v), cstr(v), udata(v), "p%d" % v.v if v.t == "uptr" else "null", TYPES[v.t])


def seen(n, v):
    return "seen %d %s %s %s %s" % (n, name(v), preds(v), neutral(v), udata(v))
