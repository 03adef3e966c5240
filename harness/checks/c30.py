"""C30: the global state of the interpreter before, during and after operations, and operations under unusual global state."""
import asyncio, contextlib, decimal, gc, os, random, shutil, signal, subprocess, sys, tempfile, threading, warnings

import protosym.simplecas as sc

from pv import extremes, heap, state
from pv.core import Violation, check, short
from pv.world import OPS, Fault, Norm, World

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAST = [n for n, f in OPS.items() if not f.slow]
RULES = ["evaluator", "evaluator recursive", "transformer", "sym evaluator"]


class NoStream:
    """A standard stream on which nothing may be done."""
    def __getattr__(self, name): raise Violation(f"sys.stdout.{name} or the same of stderr or stdin is used")


def depth():
    f, n = sys._getframe(), 0
    while f is not None: f, n = f.f_back, n + 1
    return n


# Unusual global states: name -> (context manager, whether also for operations of SymPy and llvmlite)
STATES = {}
def unusual(name, slow=True):
    def deco(fn): STATES[name] = (contextlib.contextmanager(fn), slow); return fn
    return deco

@unusual("as usual")
def _(rng): yield
@unusual("low recursion limit", slow=False)
def _(rng):
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(depth() + rng.randrange(60, 120))
    try: yield
    finally: sys.setrecursionlimit(old)
@unusual("high recursion limit")
def _(rng):
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(rng.randrange(20000, 10 ** 6))
    try: yield
    finally: sys.setrecursionlimit(old)
@unusual("no collector")
def _(rng):
    on = gc.isenabled()
    gc.disable()
    try: yield
    finally: (gc.enable if on else gc.disable)()
@unusual("eager collector")
def _(rng):
    old, on = gc.get_threshold(), gc.isenabled()
    gc.enable(); gc.set_threshold(rng.choice([1, 3, 17]), 1, 1)
    try: yield
    finally: gc.set_threshold(*old); (gc.enable if on else gc.disable)()
@unusual("decimal context")
def _(rng):
    with decimal.localcontext() as c:
        c.prec = 1
        c.traps[decimal.Inexact] = True
        yield
@unusual("warnings are errors", slow=False)
def _(rng):
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        yield
@unusual("numpy state")
def _(rng):
    import numpy as np
    with np.errstate(all=rng.choice(["raise", "ignore", "print"])), np.printoptions(precision=1, suppress=True): yield
@unusual("mpmath precision", slow=False)
def _(rng):
    import mpmath
    with mpmath.workdps(3): yield
@unusual("sympy without evaluation", slow=False)
def _(rng):
    import sympy
    with sympy.evaluate(False): yield
@unusual("no streams")
def _(rng):
    old = sys.stdin, sys.stdout, sys.stderr
    sys.stdin = sys.stdout = sys.stderr = rng.choice([None, NoStream()])
    try: yield
    finally: sys.stdin, sys.stdout, sys.stderr = old
@unusual("empty environment")
def _(rng):
    old = dict(os.environ)
    os.environ.clear()
    try: yield
    finally: os.environ.update(old)
@unusual("no directory", slow=False)
def _(rng):
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="pv-c30-")
    os.chdir(d); os.rmdir(d)
    try: yield
    finally: os.chdir(old)
@unusual("switch interval")
def _(rng):
    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([1e-6, .5]))
    try: yield
    finally: sys.setswitchinterval(old)
@unusual("trace function")
def _(rng):
    def trace(frame, event, arg): return trace
    sys.settrace(trace)
    try: yield
    finally: sys.settrace(None)
@unusual("profile function")
def _(rng):
    sys.setprofile(lambda *a: None)
    try: yield
    finally: sys.setprofile(None)
@unusual("few digits")
def _(rng):
    old = sys.get_int_max_str_digits()
    sys.set_int_max_str_digits(rng.choice([640, 0]))
    try: yield
    finally: sys.set_int_max_str_digits(old)
@unusual("random state")
def _(rng):
    old = random.getstate()
    random.seed(rng.random())
    try: yield
    finally: random.setstate(old)
@unusual("signals ignored and blocked")
def _(rng):
    old = signal.signal(signal.SIGINT, signal.SIG_IGN)
    mask = signal.pthread_sigmask(signal.SIG_BLOCK, {signal.SIGUSR1, signal.SIGCHLD})
    try: yield
    finally: signal.pthread_sigmask(signal.SIG_SETMASK, mask); signal.signal(signal.SIGINT, old)
@unusual("hooks")
def _(rng):
    def hook(*a): pass
    old = sys.excepthook, sys.unraisablehook, sys.displayhook
    sys.excepthook = sys.displayhook = hook
    try: yield
    finally: sys.excepthook, sys.unraisablehook, sys.displayhook = old
@unusual("handling an exception")
def _(rng):
    try: raise KeyError("outer")
    except KeyError: yield


class CHECK:
    rule = "different (global state, operation, variant, how it ends) tuples"
    evaluations = "operations"
    plan = {"quick": {"seconds": 10, "min": 6, "case_cpu": 200}, "thorough": {"seconds": 300, "min": 40, "case_cpu": 400}}
    floors = {"cases": 40, "operations": 4000, "states_compared": 8000, "seen_in_rules": 5000, "failing": 300, "in_threads": 100, "in_coroutines": 100,
              "processes": 20, "programs": 80, "imports": 2, "exits": 4, "extremes": 400, "extreme_programs": 4}
    assumptions = ["the state that is read: that of the interpreter and its standard library, and the settings of NumPy, SymPy and mpmath"]

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.refs = {}
        self.engine = state.third_party()
        extremes.with_sympy()
        self.scratch = tempfile.mkdtemp(prefix="pv-c30-")
        self.started = False

    def tag(self):
        self.n += 1
        return f"q{self.n:07d}"

    def world(self, seed):
        t = self.tag()
        return World(seed, t, size=4), Norm(t)

    def ref(self, seed, name, v):
        r = self.refs.get((seed, name, v))
        if r is None:
            if len(self.refs) > 5000: self.refs.clear()
            w, norm = self.world(seed)
            go = w.op(name, v)
            r = self.refs[seed, name, v] = self.unchanged(f"'{name}'", lambda: norm(go()))
        return r

    def unchanged(self, what, go):
        before = state.full()
        r = go()
        d = state.differences(before, state.full())
        check(not d, lambda: f"{what}: the global state is changed: {short(d)}", differences=d)
        self.ctx.obs("states_compared", 2)
        return r

    def case(self, rng, idx):
        ctx = self.ctx
        kind = ("programs", "exits", "modes")[idx // 8 % 3] if idx % 8 == 7 else ("coroutines", "threads")[idx // 8 % 2] if idx % 8 == 6 else "states"
        old = os.getcwd()
        os.chdir(self.scratch)
        out = tempfile.TemporaryFile()
        sys.stdout.flush(); sys.stderr.flush()
        saved = os.dup(1), os.dup(2)
        warned = []
        show = warnings.showwarning
        warnings.showwarning = lambda *a, **k: warned.append(a)
        try:
            os.dup2(out.fileno(), 1); os.dup2(out.fileno(), 2)
            # What the operations do when they run for the first time counts too.
            first = None if self.started else state.full()
            if first: kind = "states"
            self.started = True
            getattr(self, kind)(rng)
            if first:
                d = state.differences(first, state.full())
                check(not d, lambda: f"after the first operations the global state differs: {short(d)}", differences=d)
            sys.stdout.flush(); sys.stderr.flush()
            size = os.fstat(out.fileno()).st_size
            if size:
                out.seek(0)
                raise Violation(f"something is written to the standard streams: {out.read(300)!r}")
        finally:
            warnings.showwarning = show
            os.dup2(saved[0], 1); os.dup2(saved[1], 2)
            os.close(saved[0]); os.close(saved[1]); out.close()
            os.chdir(old)
        left = os.listdir(self.scratch)
        check(not left, f"files are left in the current directory: {left}")
        ctx.sample({"kind": kind, "operations": ctx.counts.get("operations", 0)})

    def run(self, go, w, what, norm, want, fails=False, **detail):
        """Runs an operation and compares the state before, in its rules and afterwards."""
        ctx = self.ctx
        inside, n = [], [0]
        light = state.light()
        def tick():
            n[0] += 1
            if len(inside) < 2 and (d := state.differences(light, state.light())): inside.append(d)
            ctx.obs("seen_in_rules")
            if fails and n[0] == fails: raise Fault
        w.tick = tick
        failed = False
        before = state.full()
        try: r = go()
        except Fault: failed = True
        finally:
            after = state.full()
            w.tick = lambda: None
        d = state.differences(before, after)
        check(not d, lambda: f"{what}{' (which fails)' if failed else ''}: the global state is changed: {short(d)}", differences=d, **detail)
        check(not inside, lambda: f"{what}: the global state is changed while its rules run: {short(inside[0])}", **detail)
        ctx.obs("states_compared", 2); ctx.obs("operations")
        if failed:
            check(fails, f"{what} fails"); ctx.obs("failing")
            return
        got = norm(r)
        check(got == want, f"{what}: another result", got=short(got), want=short(want), error=repr(r), **detail)

    def states(self, rng):
        ctx = self.ctx
        seed = rng.randrange(10 ** 9)
        w, norm = self.world(seed)
        names = list(STATES)
        for _ in range(12):
            sname = rng.choice(names)
            ctxman, slow = STATES[sname]
            pairs = [(rng.choice(RULES if rng.random() < .25 else list(OPS) if slow and rng.random() < .3 else FAST), rng.randrange(4)) for _ in range(4)]
            if sname == "trace function": pairs = [p for p in pairs if not OPS[p[0]].slow]
            for p in pairs: self.ref(seed, *p)
            todo = [(p, w.op(*p)) for p in pairs]
            with ctxman(rng):
                for (name, v), go in todo:
                    fails = rng.randrange(1, 6) if rng.random() < (.6 if name in RULES else .1) else False
                    self.run(go, w, f"'{name}' under '{sname}'", norm, self.ref(seed, name, v), fails, world=seed, variant=v)
                    ctx.sig(sname, name, v, bool(fails))

        if rng.random() < .5: self.extremes(rng)

    def extremes(self, rng):
        """Operations that are refused or fail, and very large ones."""
        ctx = self.ctx
        class w: tick = None
        for _ in range(8):
            sname = rng.choice([s for s in STATES if s not in ("trace function", "profile function", "eager collector")])
            ctxman, slow = STATES[sname]
            skip = {"digits"} if sname == "few digits" else set()
            if not slow: skip |= {"sympy", "llvm"}
            labels = rng.sample([k for k, (fn, flags) in extremes.ITEMS.items() if not skip & set(flags)], 6)
            for k in labels:
                if ("x", k) not in self.refs: self.refs["x", k] = self.unchanged(f"'{k}'", lambda: extremes.outcome(k))
            with ctxman(rng):
                for k in labels:
                    self.run(lambda: extremes.outcome(k), w, f"'{k}' under '{sname}'", str, self.refs["x", k])
                    ctx.obs("extremes"); ctx.sig(sname, k)

    def modes(self, rng):
        """Operations that are refused or fail, and very large ones, in interpreters started in different ways."""
        ctx = self.ctx
        script = os.path.join(HERE, "pv", "extremes.py")
        modes = [("with -O", ["-O"], {}), ("with -OO", ["-OO"], {}), ("with -X dev", ["-X", "dev"], {}), ("with few digits", ["-X", "int_max_str_digits=640"], {}), ("isolated, without environment", ["-I", "-B"], {"env": {}}), ("in the C locale", ["-X", "utf8=0"], {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0"})]
        name, flags, kw = rng.choice(modes)
        if rng.random() < .5: name, flags, kw = rng.choice(modes[:2])
        skip = ["sympy"] if rng.random() < .7 or "dev" in flags else []
        if "digits" in name: skip.append("digits")
        want = None
        for name, flags, kw in [("plainly", [], {}), (name, flags, kw)]:
            rc, out, err = self.process([*flags, script, str(rng.randrange(1000)), *skip], cwd="/", **kw)
            if rc and "/protosym/" not in err.split("Traceback")[-1]: raise RuntimeError(f"extremes.py ended with {rc}: {err[-1500:]}")
            if "dev" in flags: err = "\n".join(l for l in err.splitlines() if "protosym" in l and "Warning" in l)
            check(not rc and not err, f"refused, failing and large operations: an interpreter started {name} ends with {rc} or something is written to stderr", stderr=err[-3000:])
            if want is None: want = out
            check(out == want and "end" in out, f"refused, failing and large operations give other results in an interpreter started {name}", differences=lambda: [(a, b) for a, b in zip(want.split("\n"), out.split("\n")) if a != b][:5])
            ctx.obs("extreme_programs"); ctx.sig("extremes", name)

    def threads(self, rng):
        """In threads with a small stack, with the state seen from there and from outside."""
        ctx = self.ctx
        seed = rng.randrange(10 ** 9)
        names = [n for n in FAST]
        size = rng.choice([1 << 18, 1 << 20])
        for _ in range(10):
            name, v = rng.choice(names), rng.randrange(4)
            want = self.ref(seed, name, v)
            w, norm = self.world(seed)
            go, errors = w.op(name, v), []
            def body():
                try: self.run(go, w, f"'{name}' in a thread", norm, want, world=seed, variant=v)
                except BaseException as e: errors.append(e)
            old = threading.stack_size(size)
            try: t = threading.Thread(target=body); t.start(); t.join()
            finally: threading.stack_size(old)
            if errors: raise errors[0]
            ctx.obs("in_threads"); ctx.sig("thread", name, v)

    def coroutines(self, rng):
        """In coroutines and generators of a running event loop."""
        ctx = self.ctx
        seed = rng.randrange(10 ** 9)
        pairs = [(rng.choice(FAST), rng.randrange(4)) for _ in range(14)]
        for p in pairs: self.ref(seed, *p)
        worlds = [self.world(seed) for _ in pairs]
        def gen(k):
            w, norm = worlds[k]
            name, v = pairs[k]
            go = w.op(name, v)
            yield 1
            self.run(go, w, f"'{name}' in a coroutine", norm, self.ref(seed, name, v), world=seed, variant=v)
            ctx.obs("in_coroutines"); ctx.sig("coroutine", name, v)
            yield 2
        async def one(k):
            for _ in gen(k): await asyncio.sleep(0)
        async def main():
            loop = asyncio.get_running_loop()
            await asyncio.gather(*[one(k) for k in range(len(pairs))])
            check(asyncio.get_running_loop() is loop and len(asyncio.all_tasks()) == 1, "tasks are left in the event loop")
        asyncio.run(main())

    def process(self, argv, cwd=None, env=None, **more):
        e = {k: v for k, v in (os.environ if env is None else env).items() if not k.startswith("PYTHON")}
        if "PV_SRC" in os.environ: e["PV_SRC"] = os.environ["PV_SRC"]
        e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", **more)
        p = subprocess.run([sys.executable, *argv], env=e, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, timeout=150)
        self.ctx.obs("processes")
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")

    def programs(self, rng):
        """The same programs in interpreters started in different ways."""
        ctx = self.ctx
        seed, count = rng.randrange(10 ** 6), 5
        if seed % 4 == 0: seed += 1          # not those that use SymPy, which warns
        script = os.path.join(HERE, "pv", "program.py")
        modes = [("plainly", [], {}), ("with -OO", ["-OO"], {}), ("with -X dev", ["-X", "dev"], {}), ("with few digits", ["-X", "int_max_str_digits=640"], {}),
                 ("isolated, without environment", ["-I", "-B"], {"env": {}}), ("in the C locale", ["-X", "utf8=0"], {"LC_ALL": "C", "PYTHONCOERCECLOCALE": "0", "TZ": "Asia/Kathmandu"})]
        want = None
        for name, flags, kw in [modes[0], *rng.sample(modes[1:], 3)]:
            rc, out, err = self.process([*flags, script, str(seed), str(count), "0"], cwd="/", **kw)
            if rc and "/protosym/" not in err.split("Traceback")[-1]: raise RuntimeError(f"program.py ended with {rc}: {err[-1500:]}")
            if "-X" in flags and "dev" in flags: err = "\n".join(l for l in err.splitlines() if "protosym" in l and "Warning" in l)
            check(not rc and not err, f"a program fails or writes to stderr in an interpreter started {name}", stderr=err[-3000:], seed=seed)
            if want is None: want = out
            check(out == want and out, f"a program gives other results in an interpreter started {name}", seed=seed,
                  differences=lambda: [b for a, b in zip(want.split(), out.split()) if a != b][:10])
            ctx.obs("programs", count); ctx.sig("program", seed, name)

    def exits(self, rng):
        """What importing does, and what happens when the interpreter ends while expressions exist."""
        ctx = self.ctx
        script = os.path.join(HERE, "pv", "exits.py")
        for what in ("import", "exit"):
            for flags in ([], rng.choice([["-X", "dev"], ["-OO"], ["-I"]])):
                rc, out, err = self.process([*flags, script, what, str(rng.randrange(10 ** 6))], cwd=self.scratch)
                if rc == 3: raise RuntimeError(err[-1500:])
                if "dev" in flags: err = "\n".join(l for l in err.splitlines() if "protosym" in l)
                check(not rc and not err, f"{what} in an interpreter with {flags}: it ends with status {rc} and the message {err[-300:]}", stderr=err[-3000:])
                check(out == "good\n", f"{what} in an interpreter with {flags}: {out[:600]}")
                ctx.obs("imports" if what == "import" else "exits"); ctx.sig(what, *flags)

    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
