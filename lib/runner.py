"""Python side of harness/runner.c: a pool of fork servers."""
import os, signal, struct, subprocess, tempfile, shutil, threading, queue, resource, atexit, time
from concurrent.futures import ThreadPoolExecutor
from . import build

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=86:abort_on_error=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:handle_abort=1:quarantine_size_mb=16:symbolize=1",
    "UBSAN_OPTIONS": "exitcode=87:print_stacktrace=1:halt_on_error=1:symbolize=1",
    "TSAN_OPTIONS": "exitcode=88:halt_on_error=1",
    "LC_ALL": "C", "PATH": os.environ.get("PATH", ""), "HOME": "/nonexistent",
}


class Result:
    __slots__ = ("ws", "done", "bytes", "blocks", "allocs", "out", "err")

    def __init__(self, data):
        self.ws, self.done, self.bytes, self.blocks, self.allocs = struct.unpack_from("<iIqqq", data, 0)
        n, = struct.unpack_from("<I", data, 32)
        self.out = data[36:36 + n]
        m, = struct.unpack_from("<I", data, 36 + n)
        self.err = data[40 + n:40 + n + m]

    @property
    def signal(self):
        return self.ws & 0x7f

    @property
    def code(self):
        return (self.ws >> 8) & 0xff if not self.signal else None

    @property
    def timeout(self):
        return self.signal in (signal.SIGXCPU, signal.SIGALRM, signal.SIGKILL, signal.SIGXFSZ)

    @property
    def hung(self):
        """Used up its CPU time, or printed without end."""
        return self.signal in (signal.SIGXCPU, signal.SIGXFSZ)

    @property
    def oom(self):
        return self.code == 77 and not self.done

    @property
    def san(self):
        """Sanitizer or signal verdict, or None."""
        if self.timeout:
            return None
        if self.signal:
            return "killed by signal %d" % self.signal
        if b"AddressSanitizer" in self.err or b"runtime error:" in self.err or (self.code in (86, 87) and not self.done):
            for l in self.err.split(b"\n"):
                if b"runtime error:" in l or b"ERROR: AddressSanitizer" in l:
                    return l.decode(errors="replace")[:300]
            return "sanitizer report"
        return None

    def san_detail(self):
        return self.err.decode(errors="replace")[-4000:]


def _limits():
    resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, resource.RLIM_INFINITY))


class Server:
    def __init__(self, exe, bigstack=True):
        self.exe = exe
        self.dir = tempfile.mkdtemp(prefix="yv-")
        os.chmod(self.dir, 0o777)   # children run as nobody
        self.bigstack = bigstack
        self.start()

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=SAN_ENV, cwd=self.dir,
                                  preexec_fn=_limits if self.bigstack else None)

    def call(self, argv, stdin=b"", cwd="", cpu=5, wall=60):
        b = [struct.pack("<III", cpu, wall, len(argv))]
        for a in argv:
            a = a if isinstance(a, bytes) else a.encode()
            b.append(struct.pack("<I", len(a)) + a)
        c = (cwd or self.dir).encode()
        b.append(struct.pack("<I", len(c)) + c)
        b.append(struct.pack("<I", len(stdin)) + stdin)
        m = b"".join(b)
        self.p.stdin.write(struct.pack("<I", len(m)) + m)
        self.p.stdin.flush()
        h = self.p.stdout.read(4)
        if len(h) < 4:
            raise RuntimeError("runner died")
        n, = struct.unpack("<I", h)
        return Result(self.p.stdout.read(n))

    def prog(self, src, argv=(), files=None, stdin=b"", cpu=5, mode="file", retry=True):
        """Runs a source text.  files: extra files {relative name: bytes}."""
        for k, v in (files or {}).items():
            f = os.path.join(self.dir, k)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "wb") as fh:
                fh.write(v)
        if mode in ("file", "-C"):
            with open(os.path.join(self.dir, "p.yasl"), "wb") as fh:
                fh.write(src)
            a = ["yasl", "p.yasl"] if mode == "file" else ["yasl", "-C", "p.yasl"]
        else:
            a = ["yasl", mode, src]
        a += list(argv)
        r = self.call(a, stdin, cpu=cpu)
        if r.timeout and retry and cpu < 20:
            r = self.call(a, stdin, cpu=20, wall=120)
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


class Pool:
    """Runs fn(server, item) for items on n servers, yielding (item, result) in order."""

    def __init__(self, variant="asan", n=8, bigstack=True):
        self.exe = build.runner(variant)
        self.q = queue.Queue()
        self.servers = [Server(self.exe, bigstack) for _ in range(n)]
        for s in self.servers:
            self.q.put(s)
        self.ex = ThreadPoolExecutor(n)
        atexit.register(self.close)

    def _one(self, fn, item):
        s = self.q.get()
        try:
            return fn(s, item)
        finally:
            self.q.put(s)

    def map(self, fn, items):
        return self.ex.map(lambda it: self._one(fn, it), items)

    def close(self):
        self.ex.shutdown(wait=False, cancel_futures=True)
        for s in self.servers:
            s.close()
        self.servers = []
