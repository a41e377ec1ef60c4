"""Common frame of every check: seeds, tiers, evidence, violations, findings."""
import hashlib, json, os, random, sys, time, traceback
from . import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")
MAX_REPORTED = 5


class Stop(Exception):
    """Enough violations were reported."""


class Check:
    def __init__(self, pid, rule, level="exploration"):
        self.pid, self.rule, self.level = pid, rule, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        if "--quick" in sys.argv:
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.evaluations = 0
        self.seen = set()
        self.samples = []
        self.counts = {}
        self.assumptions = []
        self.violations = {}
        self.known = self._known()
        self.known_hit = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *salt):
        return random.Random("%s/%d/%s" % (self.pid, self.seed, "/".join(map(str, salt))))

    def count(self, key, k=1):
        self.counts[key] = self.counts.get(key, 0) + k

    def observe(self, case, nontrivial=True, sample=None):
        """One evaluated case.  case: bytes or str identifying it."""
        self.evaluations += 1
        if nontrivial:
            if isinstance(case, str):
                case = case.encode("utf-8", "surrogateescape")
            self.seen.add(hashlib.blake2b(case, digest_size=8).digest())
            if len(self.samples) < 4 and self.evaluations % 37 == 1:
                s = sample if sample is not None else case
                if isinstance(s, bytes):
                    s = s.decode("latin-1")
                self.samples.append(s[:3000] if isinstance(s, str) else s)

    def _known(self):
        out = {}
        try:
            for l in open(KNOWN):
                l = l.strip()
                if l.startswith("known: property=%s " % self.pid):
                    rest = l.split(" ", 2)[2]
                    key, _, what = rest.partition(" ")
                    out[key[4:] if key.startswith("key=") else key] = what
        except OSError:
            pass
        return out

    def san(self, r, key, what, src):
        """Reports a sanitizer verdict of Result r, if any."""
        v = r.san
        if v:
            self.violation(key, "%s: %s" % (what, v),
                           src + b"\n# ---- report ----\n" + r.err[-6000:])
        return v

    def violation(self, key, what, replay):
        """Reports a violation.  key identifies the failing input or site."""
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit.add(key)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[key] or key))
            return
        if key in self.violations:
            return
        d = os.path.join(VERIF, "replay", self.pid)
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, hashlib.sha256(key.encode("utf-8", "replace")).hexdigest()[:12] + ".txt")
        if isinstance(replay, bytes):
            body = replay
        else:
            body = replay.encode("utf-8", "surrogateescape")
        with open(f, "wb") as fh:
            fh.write(("# %s\n# %s\n" % (self.pid, what.replace("\n", "\n# "))).encode("utf-8", "replace"))
            fh.write(body)
        self.violations[key] = what
        print("VIOLATION property=%s replay=%s" % (self.pid, f))
        print("  " + what.replace("\n", "\n  ")[:1500])
        sys.stdout.flush()
        if len(self.violations) >= MAX_REPORTED:
            raise Stop()

    def finish(self):
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.seen),
            "rule": self.rule,
            "samples": self.samples or ["(no sample)"],
        }
        cov.update(self.counts)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as fh:
            json.dump(ev, fh, indent=1)
        os.replace(p + ".tmp", p)
        print("%s %s seed=%d: %d evaluated, %d distinct, %d violations, %.1f s"
              % (self.pid, self.tier, self.seed, self.evaluations, len(self.seen),
                 len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def main(pid, rule, fn, min_cases=1):
    """Runs fn(check) and ends the process with the check's verdict."""
    c = Check(pid, rule)
    try:
        try:
            fn(c)
        except Stop:
            pass
        rc = c.finish()
        if rc == 0 and len(c.seen) < min_cases:
            print("%s: only %d cases observed, %d needed" % (pid, len(c.seen), min_cases))
            rc = 2
    except build.BuildError as e:
        print("BUILD FAILED: %s" % e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 1 if c.violations else 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
