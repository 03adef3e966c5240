"""C28: processes forked at chosen moments of a program that works on expressions, also in other threads."""
import gc, json, os, select, signal, sys, threading, time, traceback, warnings, weakref

import protosym.simplecas as sc

from pv import heap
from pv.faults import spread
from pv.first import First
from pv.core import Violation, check, short
from pv.load import is_repo_file
from pv.world import DEEP, OPS, Norm, World

FAST = [n for n, f in OPS.items() if not f.slow]


class CHECK:
    rule = "different (operation running, point, operations of the child) tuples"
    evaluations = "forks"
    plan = {"quick": {"seconds": 10, "min": 6, "case_cpu": 200}, "thorough": {"seconds": 300, "min": 20, "case_cpu": 400}}
    floors = {"cases": 40, "forks": 500, "parked": 300, "free_running": 40, "inside": 60, "grandchildren": 20, "compared_in_children": 3000, "old_functions_called": 1000, "first_forks": 60, "first_use_lines": 20}
    assumptions = ["fork() as Linux has it; other ways to start a process share nothing"]

    def __init__(self, ctx):
        self.ctx = ctx
        self.first = First(ctx, self.ref)
        self.n = 0
        self.files, self.refs = {}, {}
        self.old = None
        self.names = list(OPS)
        warnings.simplefilter("ignore", DeprecationWarning)

    def tag(self):
        self.n += 1
        return f"q{self.n:07d}"

    def world(self, seed):
        t = self.tag()
        return World(seed, t, size=4), lambda r: Norm(t)(r)

    def ref(self, seed, name, v):
        r = self.refs.get((seed, name, v))
        if r is None:
            if len(self.refs) > 5000: self.refs.clear()
            w, norm = self.world(seed)
            r = self.refs[seed, name, v] = norm(w.op(name, v)())
        return r

    def traced(self, fn):
        r = self.files.get(fn)
        if r is None: r = self.files[fn] = is_repo_file(fn) or fn == weakref.__file__
        return r

    def tracer(self, at, act, places=None):
        """A trace function that calls act at point at, and the number of points passed."""
        n = [0]
        def local(frame, event, arg):
            if event == "exception": return local
            n[0] += 1
            if places is not None: places.append((frame.f_code, frame.f_lineno, event))
            if n[0] - 1 == at: act()
            return local
        def glob(frame, event, arg): return local(frame, event, arg) if self.traced(frame.f_code.co_filename) else None
        return glob, n

    # -- a forked child ------------------------------------------------------------------------------------------
    def child(self, work, what, **detail):
        """Forks; the child calls work(), which returns a list of complaints; the parent waits for it."""
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                sys.settrace(None)
                signal.setitimer(signal.ITIMER_PROF, 0)
                os.close(rd)
                try: out = work()
                except BaseException as e: out = {"complaints": [f"{type(e).__name__}: {e}"], "trace": traceback.format_exc()[-2000:]}
                data = json.dumps(out).encode()
                while data: data = data[os.write(wr, data):]
                code = 0
            finally: os._exit(code)
        os.close(wr)
        data, end = b"", time.monotonic() + 40
        try:
            while True:
                left = end - time.monotonic()
                if left <= 0 or not select.select([rd], [], [], left)[0]:
                    os.kill(pid, signal.SIGKILL)
                    raise Violation(f"{what}: the child process hangs", **detail)
                part = os.read(rd, 1 << 16)
                if not part: break
                data += part
        finally:
            os.close(rd)
            _, status = os.waitpid(pid, 0)
        check(status == 0 and data, f"{what}: the child process ends with status {status}", **detail)
        out = json.loads(data)
        self.ctx.obs("forks"); self.ctx.obs("compared_in_children", out.get("compared", 0))
        if out["complaints"]: raise Violation(f"{what}: in the child process {out['complaints'][0]}", trace=out.get("trace", ""), **detail)

    def work(self, w, norm, pairs, again=False):
        """What a child does: these operations, and new expressions."""
        refs = [self.ref(w.seed, *p) for p in pairs]
        ops = [w.op(*p) for p in pairs]
        k = self.tag()
        old = self.compiled()
        E = w.E
        def go():
            bad, n = [], 0
            for p, op, x in zip(pairs, ops, refs):
                g = norm(op()); n += 1
                if g != x: bad.append(f"'{p[0]}' gives {short(g)} instead of {short(x)}")
            def make(): return sc.Function(k)(sc.Symbol(k), sc.Integer(10 ** 15 + 1)) + sc.Symbol(k)
            e = make()
            if e is not make() or repr(e) != f"({k}({k}, 1000000000000001) + {k})": bad.append(f"a new expression is wrong: {e!r}")
            for a in E:
                if a.rep.children and a.head(*a.args) is not a: bad.append(f"an expression made before is not found again: {short(a)}")
                n += 1
            for fn, want in old:
                g = norm(fn(.3, -1.7)); n += 1
                if g != want: bad.append(f"a function compiled before gives {short(g)} instead of {short(want)}")
            del e
            gc.collect()
            if again:
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try: os.write(wr, json.dumps(self.work(w, norm, pairs)()["complaints"]).encode())
                    finally: os._exit(0)
                os.close(wr)
                if select.select([rd], [], [], 25)[0]: bad += json.loads(os.read(rd, 1 << 16) or b'["a grandchild ended"]')
                else: os.kill(pid, signal.SIGKILL); bad.append("a grandchild hangs")
                os.waitpid(pid, 0)
            return {"complaints": bad, "compared": n}
        if again: self.ctx.obs("grandchildren")
        return go

    def compiled(self):
        """Functions compiled before any fork, and what they give."""
        if self.old is None:
            x, y = sc.x, sc.y
            self.old = []
            for e in (sc.sin(x) * y + x ** 2, sc.Matrix([[x, 0, sc.cos(y)], [x * y, 2, y]])):
                fn = sc.lambdify([x, y], e)
                self.old.append((fn, Norm("")(fn(.3, -1.7))))
        self.ctx.obs("old_functions_called", 2)
        return self.old

    # -- cases ---------------------------------------------------------------------------------------------------
    def case(self, rng, idx):
        k = (idx + idx // 8) % 4
        kind = ("parked", "inside", "parked", "free")[k]
        gc.disable()
        try:
            getattr(self, kind)(rng)
            if k != 1: self.firsts(rng, idx)
        finally: gc.enable()
        gc.collect()
        heap.scan(self.ctx, f"after forks ({kind})")
        self.ctx.sample({"kind": kind, "forks so far": self.ctx.counts.get("forks", 0)})

    def points(self, w, name, v):
        places = []
        glob, n = self.tracer(-1, None, places)
        op = w.op(name, v)
        sys.settrace(glob)
        try: op()
        finally: sys.settrace(None)
        return places

    def parked(self, rng):
        """Another thread is in the middle of an operation."""
        ctx = self.ctx
        seed = rng.randrange(10 ** 9)
        for _ in range(3):
            name, v = rng.choice(self.names if rng.random() < .4 else ["build", "make new", "diff", "subs call", "evaluator", "bin_expand", "matrix add", "compile"]), rng.randrange(4)
            x = self.ref(seed, name, v)
            places = self.points(self.world(seed)[0], name, v)
            n = len(places)
            if not n: continue
            for at in spread(rng, places, 7 if ctx.tier == "quick" else 25):
                w, norm = self.world(seed)
                go = w.op(name, v)
                pairs = [(name, v), ("make new", rng.randrange(4)), (rng.choice(list(DEEP) if rng.random() < .1 else FAST), rng.randrange(4))]
                work = self.work(w, norm, pairs, rng.random() < .07)
                here, on, out = threading.Event(), threading.Event(), []
                def act(): here.set(); on.wait(120)
                glob, _ = self.tracer(at, act)
                def body():
                    sys.settrace(glob)
                    try: out.append(go())
                    except BaseException as e: out.append(e)
                    finally: sys.settrace(None); here.set()
                t = threading.Thread(target=body, daemon=True)
                t.start(); here.wait(60)
                what = f"forked while another thread is at point {at} of {n} of '{name}'"
                try: self.child(work, what, world=seed, operations=pairs)
                finally: on.set()
                t.join(60)
                check(norm(out[0]) == x, f"{what}: the operation gives another result", got=short(out[0]))
                check(norm(w.op(name, v)()) == x, f"{what}: afterwards the operation gives another result")
                ctx.obs("parked"); ctx.sig("parked", name, v, at, pairs)

    def firsts(self, rng, k):
        """The process is forked in the middle of the first use of an operation."""
        ctx, seed, p = self.ctx, rng.randrange(10 ** 9), (self.names[k % len(self.names)], rng.randrange(4))
        n, ats = self.first.points(rng, seed, p, 12 if ctx.tier == "quick" else 80)
        for at in ats:
            others = [(rng.choice(FAST), rng.randrange(4))]
            what = f"forked while another thread uses '{p[0]}' for the first time"
            out = self.first.ask(what, "forked", seed, *p, at, others)
            if not out["where"]: continue
            what += f" and is at {out['where']}"
            check(out["child"] != "hangs", f"{what}: the child process hangs", world=seed)
            self.first.same(what, seed, p, out["result"])
            for key in ("child", "again"):
                for q, r in zip([p, *others], out[key] or ["it ends without a result"]): self.first.same(f"{what}: in the {key if key == 'child' else 'parent afterwards'}", seed, q, r)
            ctx.obs("first_forks"); ctx.sig("first", *p, seed, at)

    def inside(self, rng):
        """The thread that forks is itself in the middle of an operation, which goes on in both processes."""
        ctx = self.ctx
        seed = rng.randrange(10 ** 9)
        for _ in range(3):
            name, v = rng.choice(self.names), rng.randrange(4)
            x = self.ref(seed, name, v)
            places = self.points(self.world(seed)[0], name, v)
            n = len(places)
            if not n: continue
            for at in spread(rng, places, 5 if ctx.tier == "quick" else 20):
                w, norm = self.world(seed)
                go, pairs = w.op(name, v), [(name, v), (rng.choice(FAST), rng.randrange(4))]
                rest = self.work(w, norm, pairs)
                state = {}
                rd, wr = os.pipe()
                def act(): state["pid"] = os.fork()
                glob, _ = self.tracer(at, act)
                sys.settrace(glob)
                try: r = go()
                except BaseException as e: r = e
                finally: sys.settrace(None)
                what = f"forked by '{name}' at point {at} of {n}"
                if state.get("pid") == 0:
                    try:
                        try:
                            signal.setitimer(signal.ITIMER_PROF, 0)
                            os.close(rd)
                            bad = [] if norm(r) == x else [f"'{name}' gives {short(norm(r))} instead of {short(x)}"]
                            d = rest()
                            bad += d["complaints"]
                        except BaseException as e: bad = [f"{type(e).__name__}: {e}"]
                        os.write(wr, json.dumps(bad).encode())
                    finally: os._exit(0)
                os.close(wr)
                pid = state.get("pid")
                if pid is None: os.close(rd); continue       # this time it passed fewer points
                try:
                    if not select.select([rd], [], [], 40)[0]: os.kill(pid, signal.SIGKILL); raise Violation(f"{what}: the child process hangs", world=seed)
                    bad = json.loads(os.read(rd, 1 << 16) or b'["it ends without a result"]')
                finally: os.close(rd); os.waitpid(pid, 0)
                ctx.obs("forks"); ctx.obs("inside"); ctx.obs("compared_in_children", 3)
                if bad: raise Violation(f"{what}: in the child process {bad[0]}", world=seed, operations=pairs)
                check(norm(r) == x, f"{what}: the operation gives another result in the parent", got=short(r))
                ctx.sig("inside", name, v, at, pairs)

    def free(self, rng):
        """Threads that run freely while the main thread forks."""
        ctx = self.ctx
        seed = rng.randrange(10 ** 9)
        w, norm = self.world(seed)
        names = rng.sample(FAST, 4) + ["make new", "build"]
        pairs = [(m, v) for m in names for v in range(4)]
        for p in pairs: self.ref(seed, *p)
        stop, errors = threading.Event(), []
        jobs = [[w.op(*p) for p in pairs] for _ in range(3)]      # makes everything that the world makes on demand
        w.E
        def body(k):
            r, i = jobs[k], k
            try:
                while not stop.is_set():
                    i += 1
                    r[i * 7 % len(r)]()
                    s = f"{w.tag}t{k}_{i}"
                    sc.Function(s)(sc.Symbol(s), 10 ** 9 + i) + sc.Symbol(s)
            except BaseException as e: errors.append(e)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        ths = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(rng.choice([1, 3]))]
        try:
            for t in ths: t.start()
            for _ in range(8):
                work = self.work(w, norm, rng.sample(pairs, 3), rng.random() < .1)
                time.sleep(rng.random() * .004)
                self.child(work, f"forked while {len(ths)} other threads work on expressions", world=seed, operations=names)
                ctx.obs("free_running"); ctx.sig("free", seed, names, rng.random())
        finally:
            stop.set(); sys.setswitchinterval(old)
            for t in ths: t.join(60)
        if errors: raise Violation(f"{type(errors[0]).__name__} in a thread while the process forks: {errors[0]}") from errors[0]
        for p in pairs: check(norm(w.op(*p)()) == self.ref(seed, *p), f"after forks '{p[0]}' gives another result")
