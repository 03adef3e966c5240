"""First uses of operations, in processes in which the library has been imported and nothing more.

A process forked at the start (before any operation has run) forks a child for every request; the child does one task
and sends back what it saw.  What a first use does that later ones do not (the lines only the first of two runs of an
operation passes) is where these tasks switch threads, raise, start other operations or fork.
"""
import ctypes, gc, os, pickle, random, select, signal, struct, sys, threading, time, traceback, weakref

from pv.core import Violation
from pv.load import is_repo_file

_prctl = ctypes.CDLL(None).prctl


def _read(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b: return None
        out += b
    return out


def _send(fd, obj):
    d = pickle.dumps(obj)
    d = struct.pack("<I", len(d)) + d
    while d: d = d[os.write(fd, d):]


def _recv(fd):
    h = _read(fd, 4)
    return None if h is None else pickle.loads(_read(fd, struct.unpack("<I", h)[0]))


class Zygote:
    def __init__(self, preload=()):
        for m in preload:
            try: __import__(m)
            except ImportError: pass
        r1, w1 = os.pipe(); r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                _prctl(1, signal.SIGKILL)       # ends with its parent
                os.close(w1); os.close(r2)
                self.serve(r1, w2)
            finally: os._exit(0)
        os.close(r1); os.close(w2)
        self.w, self.r = w1, r2

    def serve(self, rd, wr):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, signal.SIG_DFL)
        while (req := _recv(rd)) is not None:
            p_r, p_w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(p_r)
                    _prctl(1, signal.SIGKILL)
                    name, args = req
                    try: out = "ok", TASKS[name](*args)
                    except BaseException as e: out = "error", f"{type(e).__name__}: {e}", traceback.format_exc()[-3000:]
                    _send(p_w, out)
                finally: os._exit(0)
            os.close(p_w)
            out = "hangs",
            if select.select([p_r], [], [], 60)[0]: out = _recv(p_r) or ("dies",)
            if out == ("hangs",): os.kill(pid, signal.SIGKILL)
            _, st = os.waitpid(pid, 0)
            if out == ("dies",): out = "dies", st
            os.close(p_r)
            _send(wr, out)

    def __call__(self, name, *args):
        _send(self.w, (name, args))
        out = _recv(self.r)
        if out is None: raise RuntimeError("the process for first uses has ended")
        return out


# -- in the children ----------------------------------------------------------------------------------------------
def make(seed, size=4):
    from pv.world import Norm, World
    w = World(seed, "qfirst00", size=size)
    return w, lambda r: repr(Norm("qfirst00")(r))


_files = {}


def traced(fn):
    r = _files.get(fn)
    if r is None: r = _files[fn] = is_repo_file(fn) or fn == weakref.__file__
    return r


def importing(frame):
    while frame is not None:
        if "importlib._bootstrap" in frame.f_code.co_filename: return True
        frame = frame.f_back
    return False


def run(fn, at=None, act=None, lines=None, imports=True):
    """Calls act at the line event number at (without imports, at the next one that no import has led to)."""
    n, where = 0, None
    def local(frame, event, arg):
        nonlocal n, where
        if event == "line":
            if lines is not None: lines.append((frame.f_code.co_filename, frame.f_lineno))
            n += 1
            if n - 1 == at and not imports and importing(frame): n -= 1
            elif n - 1 == at:
                where = f"{frame.f_code.co_filename.rsplit('/', 1)[1]}:{frame.f_lineno} {frame.f_code.co_name}"
                act(where)
        return local
    def glob(frame, event, arg): return local if traced(frame.f_code.co_filename) else None
    sys.settrace(glob)
    try: r = fn()
    finally: sys.settrace(None)
    return r, where


def points(seed, name, v):
    """(number of lines of the first run, those of them that the second run does not pass)"""
    w, norm = make(seed)
    op = w.op(name, v)
    a, b = [], []
    gc.disable()
    x = norm(run(op, lines=a)[0])
    y = norm(run(op, lines=b)[0])
    new = set(a) - set(b)
    return len(a), [k for k, l in enumerate(a) if l in new], x, y


def together(seed, jobs, plan, first, rnd):
    """Threads that run these operations; plan: {(thread, line): next thread}, or random switches."""
    from pv.sched import Deadlock, Sched, random_switches, switches
    w, norm = make(seed)
    ops = [w.op(*p) for p in jobs]
    gc.disable()
    s = Sched(lines=True)
    try: res = s.run(ops, random_switches(random.Random(rnd), len(jobs), .3) if rnd is not None else switches(plan), first)
    except Deadlock as d: return {"deadlock": str(d)}
    errors = [e and f"{type(e).__name__}: {e}" for e in s.errors]
    return {"errors": errors, "results": [e or norm(r) for e, r in zip(errors, res)], "again": [norm(o()) for o in ops], "switches": s.switches}


def fault(seed, name, v, at, base, others):
    """The operation is interrupted at this line; then it and others are run."""
    from pv.faults import Interrupt
    from pv.world import Fault
    w, norm = make(seed)
    op = w.op(name, v)
    exc = Interrupt if base else Fault
    def act(where): raise exc(where)
    where = None
    try: _, where = run(op, at, act)
    except (Interrupt, Fault) as e: where = str(e)
    return {"where": where, "again": norm(op()), "others": [norm(w.op(*p)()) for p in others]}


def inside(seed, name, v, at, inner):
    w, norm = make(seed)
    op, ops = w.op(name, v), [w.op(*p) for p in inner]
    log = []
    r, where = run(op, at, lambda where: log.extend(o() for o in ops), imports=False)
    return {"where": where, "result": norm(r), "inside": [norm(q) for q in log], "again": norm(op())}


def forked(seed, name, v, at, others):
    """Another thread is in the first use of the operation while the process forks."""
    w, norm = make(seed)
    op, ops = w.op(name, v), [w.op(name, v)] + [w.op(*p) for p in others]
    here, on, out = threading.Event(), threading.Event(), []
    def act(where):
        out.append(where)
        here.set(); on.wait(60)
    def body():
        try: out.append(run(op, at, act, imports=False)[0])
        finally: here.set()
    t = threading.Thread(target=body, daemon=True)
    t.start(); here.wait(60)
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            _prctl(1, signal.SIGKILL)
            try: res = [norm(o()) for o in ops]
            except BaseException as e: res = [f"{type(e).__name__}: {e}"]
            _send(wr, res)
        finally: os._exit(0)
    os.close(wr)
    child = _recv(rd) if select.select([rd], [], [], 30)[0] else "hangs"
    if child == "hangs": os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    on.set(); t.join(30)
    return {"where": out[0] if len(out) > 1 else None, "child": child, "result": norm(out[-1]), "again": [norm(o()) for o in ops]}


TASKS = {"points": points, "together": together, "fault": fault, "inside": inside, "forked": forked}


# -- in the checks ------------------------------------------------------------------------------------------------
class First:
    """What the checks share: references and the choice of points."""

    def __init__(self, ctx, ref):
        self.ctx, self.ref, self.z = ctx, ref, Zygote(("sympy", "numpy", "llvmlite.binding"))

    def ask(self, what, task, *args):
        out = self.z(task, *args)
        self.ctx.obs("first_uses")
        if out[0] == "ok": return out[1]
        if out[0] == "error": raise Violation(f"{what}: {out[1]}", trace=out[2])
        raise Violation(f"{what}: the process {out[0]} {out[1:] or ''}")

    def want(self, seed, p): return repr(self.ref(seed, *p))

    def points(self, rng, seed, p, cap):
        """Lines that only the first use passes, and some others."""
        n, new, x, y = self.ask(f"'{p[0]}' used for the first time", "points", seed, *p)
        w = self.want(seed, p)
        if x != w or y != w: raise Violation(f"'{p[0]}' gives another result when it is used for the first time", world=seed, variant=p[1], got=x[:2000], second=y[:2000], otherwise=w[:2000])
        self.ctx.obs("first_use_lines", len(new))
        some = new if len(new) <= cap else sorted(rng.sample(new, cap))
        return n, some + [rng.randrange(n) for _ in range(2)] if n else []

    def same(self, what, seed, p, got, **detail):
        w = self.want(seed, p)
        if got != w: raise Violation(f"{what}: '{p[0]}' gives another result", world=seed, variant=p[1], got=got[:2000], otherwise=w[:2000], **detail)
        self.ctx.obs("first_compared")
