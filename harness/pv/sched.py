"""Runs threads one at a time and switches between them at chosen bytecodes.

Every thread is traced; before each traced bytecode (or line) it passes a point.  Only the thread that holds the
baton goes on; decide(me, step) says at each point who should have it.  A thread that blocks on a lock makes no
progress; the controller then gives the baton to another, and the blocked one stops at its next point.
"""
import sys, threading, _thread, time, weakref

from pv.load import is_repo_file


class Deadlock(Exception):
    pass


class CoopLock:
    """Wraps a lock of the repository: a thread that has to wait gives up the baton at once."""

    def __init__(self, real): self.real = real

    def acquire(self, blocking=True, timeout=-1):
        me = getattr(_mine, "me", None)
        if me is None or not blocking or timeout != -1: return self.real.acquire(blocking, timeout)
        while not self.real.acquire(False): me[0].give_up(me[1])
        return True

    def release(self): self.real.release()
    def locked(self): return self.real.locked()
    def __enter__(self): return self.acquire()
    def __exit__(self, *a): self.release()
    def __getattr__(self, name): return getattr(self.real, name)


_mine = threading.local()
LOCKS = (type(_thread.allocate_lock()), type(threading.RLock()))


def wrap_locks():
    """Locks in globals of the repository's modules, its classes and the objects found there (a speed-up only: others are found by waiting)."""
    ours = lambda o: (getattr(type(o), "__module__", "") or "").split(".")[0] == "protosym"
    todo, seen = [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "protosym"], set()
    while todo:
        o = todo.pop()
        if id(o) in seen: continue
        seen.add(id(o))
        for k, v in list(getattr(o, "__dict__", {}).items()):
            if isinstance(v, LOCKS):
                try: setattr(o, k, CoopLock(v))
                except Exception: pass
            elif isinstance(v, type) and v.__module__.split(".")[0] == "protosym":
                todo.append(v); todo += type.__subclasses__(v)
            elif ours(v): todo.append(v)
        if isinstance(o, type): todo += type.__subclasses__(o)


class Sched:
    def __init__(self, extra_files=(), lines=False, patience=0.003):
        self.files = {}
        self.extra = {weakref.__file__, *extra_files}
        self.lines = lines
        self.patience = patience
        self.trail = None       # lists (one for each thread) to which the places it passes are added
        self.handoffs = self.blocked_seen = self.yields = 0
        wrap_locks()

    def traced(self, fn):
        r = self.files.get(fn)
        if r is None: r = self.files[fn] = is_repo_file(fn) or fn in self.extra
        return r

    def tracer(self, me):
        point, traced, lines = self.point, self.traced, self.lines
        def local(frame, event, arg):
            if event == ("line" if lines else "opcode"):
                if self.trail is not None: self.trail[me].append((frame.f_code, frame.f_lineno))
                point(me)
            return local
        def glob(frame, event, arg):
            if not traced(frame.f_code.co_filename): return None
            if lines: return local
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return local
        return glob

    def grant(self, nxt):
        """mu is held."""
        self.current = nxt
        if self.waiting[nxt]:
            self.waiting[nxt] = False
            self.sem[nxt].release()

    def pause(self, me):
        """mu is held; give it up and wait for the baton."""
        self.waiting[me] = True
        self.mu.release()
        self.sem[me].acquire()

    def point(self, me):
        self.mu.acquire()
        self.progress += 1
        if self.current != me:
            self.pause(me)
            self.mu.acquire()
        k = self.steps[me]; self.steps[me] = k + 1
        nxt = self.decide(me, k)
        if nxt is not None and nxt != me and self.alive[nxt]:
            self.switches += 1
            self.grant(nxt)
            self.pause(me)
        else: self.mu.release()

    def give_up(self, me):
        """The thread waits for something that another thread has."""
        self.mu.acquire()
        n = len(self.alive)
        ready = [t for t in ((me + k) % n for k in range(1, n)) if self.alive[t] and self.waiting[t]]
        if self.current == me and ready:
            self.yields += 1
            # not always the same one: with three threads the next may wait for the third
            self.grant(ready[self.yields % len(ready)])
            self.pause(me)
        elif self.current != me: self.pause(me)
        else:
            self.mu.release()
            time.sleep(0)

    def body(self, me, fn):
        _mine.me = self, me
        self.mu.acquire(); self.pause(me)
        try:
            sys.settrace(self.tracer(me))
            try: self.results[me] = fn()
            finally: sys.settrace(None)
        except BaseException as e:
            self.errors[me] = e
        self.mu.acquire()
        self.progress += 1
        self.alive[me] = False
        if self.current == me: self.pass_on(me)
        self.left -= 1
        if not self.left: self.done.release()
        self.mu.release()

    def pass_on(self, me):
        """mu is held: somebody else who can run gets the baton."""
        n = len(self.alive)
        order = [(me + k) % n for k in range(1, n)]
        for t in order:
            if self.alive[t] and self.waiting[t]: self.grant(t); return True
        for t in order:
            if self.alive[t] and not self.stuck[t]: self.grant(t); return True
        for t in order:
            if self.alive[t]: self.grant(t); return True
        return False

    def run(self, fns, decide, first=0):
        """Results of the threads; exceptions are in self.errors."""
        n = len(fns)
        self.decide = decide
        self.mu = _thread.allocate_lock()
        self.sem = [_thread.allocate_lock() for _ in range(n)]
        for s in self.sem: s.acquire()
        self.done = _thread.allocate_lock(); self.done.acquire()
        self.waiting, self.alive, self.stuck = [False] * n, [True] * n, [False] * n
        self.steps, self.results, self.errors = [0] * n, [None] * n, [None] * n
        self.current, self.progress, self.left, self.switches = -1, 0, n, 0
        for k, fn in enumerate(fns): _thread.start_new_thread(self.body, (k, fn))
        while True:
            with self.mu:
                if all(self.waiting): break
            time.sleep(0)
        with self.mu: self.grant(first)
        last, idle = 0, 0.0
        while not self.done.acquire(timeout=self.patience):
            with self.mu:
                if self.progress != last: last, idle = self.progress, 0.0; self.stuck = [False] * n; continue
                idle += self.patience
                cur = self.current
                if not self.stuck[cur]:
                    self.stuck[cur] = True; self.blocked_seen += 1
                if idle > 20: raise Deadlock([self.steps, self.alive, self.waiting])
                ready = [t for t in range(n) if self.alive[t] and self.waiting[t]]
                if ready: self.grant(ready[0]); self.handoffs += 1
        return self.results


def one_switch(at, frm=0, to=1):
    """frm runs until its step at, then to runs to its end."""
    def decide(me, k): return to if me == frm and k == at else None
    return decide


def switches(plan):
    """plan: {(thread, step): next thread}."""
    def decide(me, k): return plan.get((me, k))
    return decide


def random_switches(rng, n, p):
    def decide(me, k): return rng.randrange(n) if rng.random() < p else None
    return decide
