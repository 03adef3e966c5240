"""C27: operations started in the middle of other operations of the same thread."""
import dis, gc, signal, sys, threading, time, weakref

import protosym.simplecas as sc
from protosym.core.tree import Tree

from pv import heap
from pv.faults import Rank, spread
from pv.first import First
from pv.core import Violation, check, short
from pv.load import is_repo_file
from pv.world import DEEP, OPS, Norm, World

FAST = [n for n, f in OPS.items() if not f.slow]
DEEPS = list(DEEP)


def breaks(code, memo={}):
    """Offsets before which signals are handled: where a function starts, after calls and after jumps back."""
    r = memo.get(code)
    if r is None:
        r, before = set(), None
        for i in dis.get_instructions(code):
            if before is None or before.startswith(("CALL", "RESUME", "JUMP_BACKWARD", "FOR_ITER", "SEND")): r.add(i.offset)
            before = i.opname
        memo[code] = r
    return r


class Points:
    """Runs a function and calls others at chosen points of the repository's code."""

    def __init__(self): self.files = {}

    def traced(self, fn):
        r = self.files.get(fn)
        if r is None: r = self.files[fn] = is_repo_file(fn) or fn == weakref.__file__
        return r

    def run(self, fn, todo, fine=False, places=None):
        """todo: point number -> function; (points passed, result, where the functions were called)."""
        n, where = 0, []
        def local(frame, event, arg):
            nonlocal n
            if event == "exception" or event == "opcode" and frame.f_lasti not in breaks(frame.f_code): return local
            f = todo.get(n)
            n += 1
            if places is not None: places.append((frame.f_code, frame.f_lasti if fine else frame.f_lineno, event))
            if f is not None:
                where.append(f"{frame.f_code.co_filename.rsplit('/', 1)[1]}:{frame.f_lineno} {frame.f_code.co_name} {event}")
                f()
            return local
        def glob(frame, event, arg):
            if not self.traced(frame.f_code.co_filename): return None
            if fine: frame.f_trace_opcodes = True
            return local(frame, event, arg)
        old = sys.gettrace()
        sys.settrace(glob)
        try: r = fn()
        finally: sys.settrace(old)
        return n, r, where


def identical(a, b):
    """Two results of one operation in one world: their expressions are the same objects."""
    if isinstance(a, (sc.Expr, Tree)): return a is b
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(map(identical, a, b))
    return True


KINDS = "lines", "rules", "lines", "finalisers", "lines", "comparisons", "signals", "callbacks"


class CHECK:
    rule = "different (operation, operations started inside it, world, points) tuples"
    evaluations = "started_inside"
    plan = {"quick": {"seconds": 9, "min": 8, "case_cpu": 200}, "thorough": {"seconds": 400, "min": 80, "case_cpu": 400}}
    floors = {"cases": 135, "started_inside": 4000, "deep_inside": 30, "in_rules": 300, "in_signals": 100, "in_finalisers": 100, "in_hashes": 300, "in_callbacks": 100, "first_inside": 80, "first_use_lines": 20, "heap_scans": 60, "compared": 8000}
    assumptions = ["signals and finalisers run between bytecodes: at the start of a line or function, after calls or jumps back in the repository's code and in weakref.py"]

    def __init__(self, ctx):
        self.ctx = ctx
        self.first = First(ctx, self.ref)
        self.n = self.beat = 0
        self.points = Points()
        self.rank = Rank(lambda i: KINDS[(i % 8 + i // 8) % 8])
        self.names = list(OPS)
        self.refs = {}

    def tag(self):
        self.n += 1
        return f"q{self.n:07d}"

    def world(self, seed):
        t = self.tag()
        return World(seed, t, size=4), lambda r: Norm(t)(r)

    def ref(self, seed, name, v):
        """The result of the operation alone."""
        r = self.refs.get((seed, name, v))
        if r is None:
            if len(self.refs) > 5000: self.refs.clear()
            w, norm = self.world(seed)
            r = self.refs[seed, name, v] = norm(w.op(name, v)())
        return r

    def same(self, seed, norm, name, v, result, what, **detail):
        try: g = norm(result)
        except Exception as e: raise Violation(f"{what}: the result of '{name}' cannot be read: {type(e).__name__}: {e}", world=seed, **detail) from e
        x = self.ref(seed, name, v)
        if g != x: raise Violation(f"{what}: '{name}' gives another result than alone", world=seed, variant=v, got=short(g), alone=short(x), **detail)
        self.ctx.obs("compared")

    def case(self, rng, idx):
        ctx = self.ctx
        k = idx % 8 + idx // 8
        kind = KINDS[k % 8]
        self.turn = self.rank(idx)
        gc.disable()
        try:
            if kind == "signals": self.signals(rng)
            else: self.guarded(lambda: getattr(self, kind)(rng))
            if kind in ("lines", "callbacks", "comparisons"): self.firsts(rng, idx)
        finally: gc.enable()
        gc.collect()
        ctx.sample({"kind": kind, "started inside others so far": ctx.counts.get("started_inside", 0)})

    def guarded(self, fn):
        """In another thread, to notice when it blocks."""
        out = []
        def body():
            try: fn()
            except BaseException as e: out.append(e)
        t = threading.Thread(target=body, daemon=True)
        t.start()
        beat, since, cpu = self.beat, time.monotonic(), time.process_time()
        while t.is_alive():
            t.join(.5)
            if self.beat != beat or time.process_time() - cpu > 2: beat, since, cpu = self.beat, time.monotonic(), time.process_time()
            elif time.monotonic() - since > 25: raise Violation("an operation started inside another one blocks", inside=self.doing)
        if out: raise out[0]

    def choose(self, rng, name, v):
        k = rng.random()
        if k < .45: return name, v
        if k < .65: return name, (v + rng.randrange(1, 4)) % 4
        if k < .68: return rng.choice(DEEPS), rng.randrange(4)
        return rng.choice(FAST), rng.randrange(4)

    def inner(self, w, pairs, log, depth=0):
        """A function that runs these operations; their arguments are made now."""
        ops = [(p, w.op(*p)) for p in pairs]
        def go():
            self.beat += 1
            for p, f in ops:
                log.append((p, f()))
                self.ctx.obs("started_inside")
                if p[0] in DEEP: self.ctx.obs("deep_inside")
        return go

    def lines(self, rng):
        ctx = self.ctx
        name, v = self.names[(self.turn + ctx.seed * 7) % len(self.names)], rng.randrange(4)
        seed = rng.randrange(10 ** 9)
        fine = rng.random() < .4
        self.doing = name
        x = self.ref(seed, name, v)
        w, norm = self.world(seed)
        places = []
        n, r, _ = self.points.run(w.op(name, v), {}, fine, places)
        self.same(seed, norm, name, v, r, "traced")
        cap = 60 if ctx.tier == "quick" else 400
        ats = spread(rng, places, cap)
        warm, wnorm = self.world(seed)
        keep = []
        for at in ats:
            w, norm = self.world(seed) if rng.random() < .7 else (warm, wnorm)
            pairs = [self.choose(rng, name, v)]
            if rng.random() < .2: pairs.append(self.choose(rng, name, v))
            log = []
            todo = {at: self.inner(w, pairs, log)}
            if rng.random() < .2: todo[rng.randrange(n)] = self.inner(w, [self.choose(rng, name, v)], log)
            _, r, where = self.points.run(w.op(name, v), todo, fine)
            if not where: continue
            what = f"{[p[0] for p, _ in log]} in '{name}' at {', '.join(where)}"
            self.same(seed, norm, name, v, r, what)
            for p, q in log:
                self.same(seed, norm, *p, q, what)
                if p == (name, v): check(identical(q, r), lambda: f"{what}: equal expressions are not one object", world=seed, inside=lambda: short(q), outside=lambda: short(r))
            self.same(seed, norm, name, v, w.op(name, v)(), what + ", afterwards")
            ctx.sig(name, v, seed, at, tuple(pairs), fine)
            keep.append((w, r, log))
            if len(keep) > 80: keep.pop(rng.randrange(len(keep)))
        gc.collect()
        heap.scan(ctx, f"after operations inside '{name}'")

    def firsts(self, rng, k):
        """Operations are started inside the very first use of an operation in a process."""
        ctx, seed, p = self.ctx, rng.randrange(10 ** 9), (self.names[k % len(self.names)], rng.randrange(4))
        n, ats = self.first.points(rng, seed, p, 12 if ctx.tier == "quick" else 80)
        for at in ats:
            inner = [self.choose(rng, *p) for _ in range(rng.choice([1, 1, 2]))]
            what = f"{inner} started inside '{p[0]}', used for the first time in a process"
            out = self.first.ask(what, "inside", seed, *p, at, inner)
            if not out["where"]: continue
            what += f", at {out['where']}"
            self.first.same(what, seed, p, out["result"])
            self.first.same(what + ", afterwards", seed, p, out["again"])
            for q, r in zip(inner, out["inside"]): self.first.same(what, seed, q, r)
            ctx.obs("first_inside"); ctx.obs("started_inside"); ctx.sig("first", *p, seed, at, inner)

    def rules(self, rng):
        """A rule uses the evaluator it belongs to."""
        ctx = self.ctx
        seed = rng.randrange(10 ** 9)
        names = ["evaluator", "evaluator recursive", "transformer", "sym evaluator"]
        names[rng.randrange(4)] = rng.choice(["deep evaluator", "deep transformer", "deep sym evaluator"])
        for name in names:
            self.doing = name
            v = rng.randrange(4)
            w, norm = self.world(seed)
            count = [0]
            def tick(): count[0] += 1
            w.tick = tick
            w.op(name, v)()
            n = count[0]
            keep = []
            for at in range(n) if n < 25 or ctx.tier == "thorough" else sorted(rng.sample(range(n), 25)):
                w, norm = self.world(seed)
                log = []
                pairs = [(name, v) if rng.random() < .5 else (rng.choice(["evaluator", "evaluator recursive", "transformer", "sym evaluator", name, name, rng.choice(DEEPS)]), rng.randrange(4))
                         for _ in range(rng.choice([1, 1, 2]))]
                if rng.random() < .3: pairs.append((rng.choice(FAST), rng.randrange(4)))
                go = self.inner(w, pairs, log)
                levels = rng.choice([1, 1, 2, 3])
                state = [0, at]
                def tick():
                    state[1] -= 1
                    if state[1] < 0 and state[0] < levels:
                        state[0] += 1
                        state[1] = rng.randrange(5)
                        go()
                        ctx.obs("in_rules")
                w.tick = tick
                r = w.op(name, v)()
                w.tick = lambda: None
                what = f"{pairs} in rule call {at} of '{name}'"
                self.same(seed, norm, name, v, r, what)
                for p, q in log: self.same(seed, norm, *p, q, what)
                self.same(seed, norm, name, v, w.op(name, v)(), what + ", afterwards")
                ctx.sig("rules", name, v, seed, at, tuple(pairs))
                keep.append((w, r, log))
        gc.collect()
        heap.scan(ctx, "after operations inside rules")

    def finalisers(self, rng):
        """The garbage collector, at some allocation in the operation, calls a finaliser that runs operations."""
        ctx = self.ctx
        old = gc.get_threshold()
        keep = []
        class Garbage:
            def __init__(self, fn): self.fn, self.me = fn, self
            def __del__(self): self.fn()
        for _ in range(25):
            seed = rng.randrange(10 ** 9)
            name, v = rng.choice(self.names), rng.randrange(4)
            self.doing = name
            w, norm = self.world(seed)
            log, errors, inside = [], [], [0]
            pairs = [self.choose(rng, name, v) for _ in range(rng.choice([1, 2]))]
            self.ref(seed, name, v)
            for p in pairs: self.ref(seed, *p)
            go = self.inner(w, pairs, log)
            def fin():
                if not inside[0]: return
                inside[0] += 1
                try: go()
                except BaseException as e: errors.append(e)
                ctx.obs("in_finalisers")
            op = w.op(name, v)
            gc.collect()
            Garbage(fin)
            # how many allocations the operation makes is not known
            after = rng.choice([1, 2, 3, 5, 9, 20, 60])
            gc.set_threshold(gc.get_count()[0] + after, 1000, 1000)
            inside[0] = 1
            gc.enable()
            try: r = op()
            finally: gc.disable(); gc.set_threshold(*old)
            hit, inside[0] = inside[0] > 1, 0
            if not hit: ctx.obs("finaliser_outside"); gc.collect(); continue
            what = f"{[p[0] for p in pairs]} in a finaliser during '{name}'"
            if errors: raise Violation(f"{what}: {type(errors[0]).__name__}: {errors[0]}", world=seed) from errors[0]
            self.same(seed, norm, name, v, r, what)
            for p, q in log:
                self.same(seed, norm, *p, q, what)
                if p == (name, v): check(identical(q, r), f"{what}: equal expressions are not one object", world=seed)
            ctx.sig("finaliser", name, v, seed, tuple(pairs), after)
            keep.append((w, r, log))
        gc.collect()
        heap.scan(ctx, "after operations inside finalisers")

    def comparisons(self, rng):
        """Values of atoms whose hash and comparison run operations."""
        ctx = self.ctx
        self.doing = "comparison of atom values"
        for _ in range(50):
            left, depth, comparing, more, log = [10 ** 9], [0], [0], [rng.choice([1, 3, 10])], []
            def hook():
                left[0] -= 1
                if left[0] < 0 and depth[0] < levels and more[0]:
                    depth[0] += 1
                    more[0] -= 1
                    left[0] = rng.randrange(3)
                    self.beat += 1
                    try:
                        # in a comparison the dict has begun to look for the key
                        if comparing[0]: make(300 + 15 * depth[0])
                        else: log.append(make(n))
                    finally: depth[0] -= 1
                    ctx.obs("in_comparisons" if comparing[0] else "in_hashes"); ctx.obs("started_inside")
            class Value:
                def __init__(self, n): self.n = n
                def __hash__(self): hook(); return self.n % 3
                def __eq__(self, other):
                    comparing[0] += 1
                    try: hook()
                    finally: comparing[0] -= 1
                    return type(other) is Value and other.n == self.n
                def __repr__(self): return f"v{self.n}"
            K = sc.Expr.new_atom(self.tag(), Value)
            f = sc.Function(self.tag())
            some = [K(Value(3)), K(Value(6)), f(K(Value(9)))] if rng.random() < .6 else []
            n = rng.choice([0, 3, 12])
            kind = rng.choice(["atom", "call", "sum", "replace", "atom of two"])
            x = sc.Symbol("x")
            base = (f(x) + x)
            def make(n):
                if kind == "atom": return K(Value(n))
                if kind == "call": return f(K(Value(n)), x)
                if kind == "sum": return K(Value(n)) + K(Value(n + 3)) * K(Value(n))
                if kind == "replace": return base.xreplace({x: K(Value(n))})
                return K(Value(n)) + K(Value(n))
            levels = rng.choice([1, 1, 2, 4])
            left[0] = rng.randrange(12)
            r = make(n)
            left[0] = 10 ** 9
            again = make(n)
            what = f"building the same expression ({kind}) in the hash of atom values"
            for q in [*log, again]: check(q is r, f"{what}: equal expressions are not one object", built=short(r), inside=short(q), times=len(log))
            check(K(Value(n)) is K(Value(n)) and K(Value(n)) != K(Value(n + 1)), f"{what}: afterwards atoms are wrong")
            ctx.sig("comparisons", kind, n, len(log), levels, len(some), rng.random())
            ctx.obs("compared", len(log) + 1)
        del r, again, log
        gc.collect()
        heap.scan(ctx, "after building in comparisons")

    def callbacks(self, rng):
        """Callbacks of weak references, called while an expression dies, build it anew and run other operations."""
        ctx = self.ctx
        keep = []
        for _ in range(25):
            seed = rng.randrange(10 ** 9)
            w, norm = self.world(seed)
            name, v = rng.choice(FAST), rng.randrange(4)
            self.doing = f"callback with '{name}'"
            self.ref(seed, name, v)
            go, log = w.op(name, v), []
            k = self.tag()
            def make(): return sc.Function(k)(sc.Symbol(k), 10 ** 12 + 3) * sc.Symbol(k)
            e = make()
            got, errors = [], []
            def callback(r, rebuild, run):
                self.beat += 1
                try:
                    if rebuild: got.append(make())
                    if run: log.append(go())
                    if rebuild: got.append(make())
                except BaseException as ex: errors.append(ex)
                ctx.obs("in_callbacks"); ctx.obs("started_inside")
            cbs = []
            targets = [e, e.rep, *e.rep.children[1:], e.rep.children[1].children[2], e.rep.children[2].value]
            for t in rng.sample(targets, rng.choice([1, 2, 6])):
                flags = rng.random() < .8, rng.random() < .5
                cbs.append(weakref.ref(t, lambda r, a=flags: callback(r, *a)))
            late = rng.random() < .3
            if late: e.__class__; sc.Expr(e.rep)      # nothing new
            del t, targets, e
            gc.collect()
            what = f"building an expression anew, and '{name}', while it dies"
            if errors: raise Violation(f"{what}: {type(errors[0]).__name__}: {errors[0]}", world=seed) from errors[0]
            again = make()
            for q in got: check(q is again, f"{what}: equal expressions are not one object", inside=short(q), outside=short(again))
            check(repr(again) == f"({k}({k}, 1000000000003)*{k})", f"{what}: the expression is wrong", got=repr(again))
            for q in log: self.same(seed, norm, name, v, q, what)
            ctx.obs("compared", len(got))
            ctx.sig("callbacks", name, v, seed, len(cbs), len(got))
            keep.append((again, got))
        gc.collect()
        heap.scan(ctx, "after operations inside callbacks of weak references")

    def signals(self, rng):
        """Real signals; the handler runs operations, also the one that it interrupts."""
        ctx = self.ctx
        seed = rng.randrange(10 ** 9)
        w, norm = self.world(seed)
        names = rng.sample(FAST, 5) + ["make new", "build"]
        pairs = [(n, v) for n in names for v in range(4)]
        for p in pairs: self.ref(seed, *p)
        jobs = {p: w.op(*p) for p in pairs}
        state = {"depth": 0, "i": 0, "since": 0, "cpu": 0, "now": None}
        log, fresh = [], {}
        def build(k):
            return sc.Function(k)(sc.Symbol(k), sc.Integer(10 ** 9 + state["i"])) + sc.Symbol(k)
        def handler(*_):
            if state["depth"]:
                if time.monotonic() - state["since"] > 25 and time.process_time() - state["cpu"] < 2: raise Violation("an operation in a signal handler blocks", inside=state["now"])
                return
            state.update(depth=1, since=time.monotonic(), cpu=time.process_time())
            try:
                p = state["now"] if rng.random() < .4 and state["now"] in jobs else rng.choice(pairs)
                log.append((p, jobs[p](), state["now"]))
                if state.get("key"): fresh.setdefault(state["key"], []).append(build(state["key"]))
                ctx.obs("in_signals"); ctx.obs("started_inside")
            finally: state["depth"] = 0
        old = signal.signal(signal.SIGALRM, handler)
        kept = []
        end = time.monotonic() + (.8 if ctx.tier == "quick" else 5)
        hits = -1
        try:
            while time.monotonic() < end:
                p = rng.choice(pairs)
                state["i"] += 1; state["now"] = p; state["key"] = f"{w.tag}k{state['i']}"
                signal.setitimer(signal.ITIMER_REAL, rng.random() * .0015 + 1e-5, .01)
                r = jobs[p]()
                e = [build(state["key"]) for _ in range(3)]
                signal.setitimer(signal.ITIMER_REAL, 0)
                for q in (*e, *fresh.pop(state["key"], ())): check(q is e[0], "an expression built in a signal handler is another object than the equal one it interrupted", got=short(q))
                self.same(seed, norm, *p, r, f"'{p[0]}' interrupted by a signal handler running {[l[0][0] for l in log]}")
                for q, r2, now in log: self.same(seed, norm, *q, r2, f"'{q[0]}' in a signal handler during '{now and now[0]}'")
                if len(kept) < 50: kept.append((r, e, log[:]))
                ctx.sig("signals", p, seed, tuple(l[0] for l in log), state["i"])
                log.clear()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        gc.collect()
        heap.scan(ctx, "after operations in signal handlers")
