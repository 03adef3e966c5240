"""Verdicts, observation counters and the per-case context."""
import functools, hashlib, os, random, traceback

from pv.load import is_repo_file


class Violation(Exception):
    """The property is broken; mechanism is a stable label for known findings."""

    def __init__(self, msg, mechanism=None, **detail):
        super().__init__(msg)
        self.msg, self.mechanism, self.detail = msg, mechanism, detail


class Skip(Exception):
    """The generated case is outside the property's domain."""


class HarnessError(Exception):
    pass


def through_repo(exc):
    """Did the exception pass through code of the repository?"""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        tb = exc.__traceback__
        while tb is not None:
            if is_repo_file(tb.tb_frame.f_code.co_filename):
                return True
            tb = tb.tb_next
        exc = exc.__cause__ or exc.__context__
    return False


@functools.cache
def known_findings():
    """{(property, mechanism): text} of /verif/KNOWN_FINDINGS.txt."""
    out = {}
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("KNOWN-FINDING:"):
                w = line.strip().split(None, 3)
                out[w[1].removeprefix("property="), w[2].removeprefix("mechanism=")] = w[3]
    return out


class Ctx:
    """What one worker observed."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.counts = {}
        self.sigs = set()
        self.samples = []
        self.known = {}

    def obs(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sig(self, *parts):
        """Record a distinct non-trivial case."""
        h = hashlib.blake2b(repr(parts).encode("utf8", "backslashreplace"), digest_size=8).digest()
        new = h not in self.sigs
        self.sigs.add(h)
        return new

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(obj)

    def finding(self, mechanism, msg, **detail):
        """A defect: counted if the known-findings file lists it, otherwise a violation."""
        if (self.prop, mechanism) not in known_findings(): raise Violation(msg, mechanism, **detail)
        self.known[mechanism] = self.known.get(mechanism, 0) + 1

    def rng(self, idx):
        return random.Random(f"{self.seed}|{self.prop}|{idx}")


def check(cond, msg, **detail):
    """msg and details may be functions, called only on failure."""
    if not cond:
        raise Violation(msg() if callable(msg) else msg, **{k: v() if callable(v) else v for k, v in detail.items()})


_raised = 0


def expect_raises(excs, fn, what, **detail):
    """fn must raise one of excs; another exception or a result is a violation.  Every few times it
    has to raise again while the first exception, with its frames, is kept."""
    global _raised
    try:
        try:
            res = fn()
        except excs as e:
            _raised += 1
            if _raised % 3: return
            kept = e
            what += " (a second time)"
            res = fn()
    except excs:
        return
    except Violation:
        raise
    except Exception as e:
        raise Violation(f"{what}: raised {type(e).__name__} ({e}) instead of the expected error",
                        traceback=traceback.format_exc(), **detail)
    raise Violation(f"{what}: returned {short(res)} instead of raising", **detail)


def short(x, n=300):
    try:
        s = repr(x)
    except Exception as e:  # printing is not the subject here
        s = f"<{type(x).__name__}: repr failed: {type(e).__name__}>"
    return s if len(s) <= n else s[:n] + "..."
