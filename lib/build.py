"""Builds /repo's current working tree, plus a harness, into /verif/build.

Objects are cached by the hash of every source and header of the tree, so a
changed tree always gives a new build.  Nothing is written to /repo.
"""
import glob, hashlib, os, subprocess, sys, fcntl, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DIRS = [".", "compiler", "data-structures", "interpreter", "util", "std"]

COMMON = ["-std=gnu99", "-g", "-fno-omit-frame-pointer", "-w",
          "-Werror=implicit-function-declaration"]
# pointer-overflow / alignment: the tree relies on both being benign on every
# supported target (see DESIGN.md), all other UBSan groups are fatal.
SAN = ["-fsanitize=address,undefined",
       "-fno-sanitize=pointer-overflow,alignment,function",
       "-fno-sanitize-recover=all"]
VARIANTS = {
    "plain": ["-O1"],
    "asan": ["-O1"] + SAN,
    "tsan": ["-O1", "-fsanitize=thread"],
}


class BuildError(Exception):
    pass


def repo_sources():
    out = []
    for d in DIRS:
        out += sorted(glob.glob(os.path.join(REPO, d, "*.c")))
    return out


def tree_hash():
    h = hashlib.sha256()
    files = []
    for d in DIRS + ["test"]:
        for pat in ("*.c", "*.h", "*.x", "*.inl"):
            files += glob.glob(os.path.join(REPO, d, pat))
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def _cc(args):
    p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(args), p.stdout.decode(errors="replace")[-3000:]))


def includes():
    return ["-I" + os.path.join(REPO, d) for d in DIRS]


def build(harness, variant, extra=(), ldextra=(), lib_only=False):
    """Returns the path of an executable made of the tree and harness/<harness>.c.

    The tree's own main() is renamed yasl_main."""
    hs = os.path.join(VERIF, "harness", harness + ".c")
    with open(hs, "rb") as fh:
        hh = fh.read()
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))):
        hh += open(f, "rb").read()
    th = tree_hash()
    base = os.path.join(BUILD, th + "-" + variant)
    key = hashlib.sha256(hh + repr((variant, tuple(extra), tuple(ldextra))).encode()).hexdigest()[:12]
    exe = os.path.join(base, harness + "-" + key)
    if os.path.exists(exe):
        os.utime(base)
        return exe
    os.makedirs(base, exist_ok=True)
    with open(os.path.join(base, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        _prune(base)
        flags = COMMON + VARIANTS[variant] + includes()
        jobs, objs = [], []
        for s in repo_sources():
            rel = os.path.relpath(s, REPO)
            o = os.path.join(base, rel.replace("/", "__") + ".o")
            objs.append(o)
            if not os.path.exists(o):
                a = ["clang"] + flags + ["-c", s, "-o", o + ".tmp.o"]
                if rel == "main.c":
                    a += ["-Dmain=yasl_main"]
                jobs.append((a, o))
        ho = exe + ".o"
        jobs.append((["clang"] + flags + list(extra) + ["-c", hs, "-o", ho + ".tmp.o"], ho))

        def run(j):
            _cc(j[0])
            os.replace(j[1] + ".tmp.o", j[1])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        _cc(["clang"] + VARIANTS[variant] + ["-g", "-o", exe + ".tmp", ho] + objs
            + list(ldextra) + ["-lm", "-ldl", "-lpthread", "-rdynamic"])
        os.replace(exe + ".tmp", exe)
    return exe


def shared(harness, n):
    """n builds of harness/<harness>.c as a shared library, with V = 0, 1, ..., and one without its entry point."""
    hs = os.path.join(VERIF, "harness", harness + ".c")
    key = hashlib.sha256(open(hs, "rb").read()).hexdigest()[:12]
    base = os.path.join(BUILD, tree_hash() + "-shared")
    os.makedirs(base, exist_ok=True)
    out = [os.path.join(base, "%s-%s-%d.so" % (harness, key, i)) for i in range(n + 1)]
    with open(os.path.join(base, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for i, o in enumerate(out):
            if not os.path.exists(o):
                _cc(["clang"] + COMMON + includes() + ["-shared", "-fPIC", "-DV=%d" % i] + (["-DNOSYM"] if i == n else []) + [hs, "-o", o + ".tmp"])
                os.replace(o + ".tmp", o)
    os.utime(base)
    return out


def _prune(keep):
    """Keep only the newest few tree builds."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
        ds = [d for d in ds if os.path.isdir(d) and d != keep and "-" in os.path.basename(d)]
        ds.sort(key=os.path.getmtime, reverse=True)
        for d in ds[12:]:
            if time.time() - os.path.getmtime(d) > 1800:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


ALLOC_WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]


def runner(variant="asan"):
    return build("runner", variant, ldextra=ALLOC_WRAP)


if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan"]:
        print(runner(v))
