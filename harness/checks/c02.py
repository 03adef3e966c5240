"""C02: threads building the same things under a controlled scheduler and under stress."""
import gc, sys, threading, weakref

import protosym.simplecas as sc
from protosym.core.atom import Atom, AtomType
from protosym.core.sym import Sym
from protosym.core.tree import SubsFunc, Tr, Tree

from pv import heap
from pv.core import Violation, check
from pv.sched import Deadlock, Sched, one_switch, random_switches, switches


class Key:
    """A value with its own hash and comparison, so that the table lookups run Python code."""
    __slots__ = ("v", "__weakref__")
    def __init__(self, v): self.v = v
    def __hash__(self): return hash(self.v) % 4
    def __eq__(self, other):
        if not isinstance(other, Key): return NotImplemented
        return self.v == other.v
    def __repr__(self): return f"Key({self.v!r})"


class OtherSym(Sym):
    """A second user-facing class."""
    pass


KeyType = AtomType("Key", Key)
StrType = AtomType("Name", str)
F, G, X = Tr(AtomType("Function", str)("F")), Tr(AtomType("Function", str)("G")), Tr(StrType("X"))


def whole(o):
    """The object is completely initialised, right after it was handed out."""
    t = type(o)
    if t is Atom: o.atom_type, o.value
    elif t is Tree:
        if not o.children: whole(o.value)
        for c in o.children: whole(c)
    else: whole(o.rep)
    return o


# name -> function of a fresh tag giving a function that builds and returns a tuple of objects
def s_atom(u): return lambda: (whole(StrType(u)),)
def s_key(u): return lambda: (whole(KeyType(Key(u))),)
def s_tr(u):
    a = StrType(u)
    return lambda: (whole(Tr(a)),)
def s_tree(u):
    a = Tr(StrType(u))
    return lambda: (whole(Tree(F, a)),)
def s_call(u):
    a = Tr(StrType(u))
    return lambda: (whole(F(a, X, a)),)
def s_nested(u): return lambda: (whole(F(G(Tr(StrType(u))), X)),)
def s_expr(u):
    t = Tree(F, Tr(StrType(u)))
    return lambda: (whole(sc.Expr(t)),)
def s_other(u):
    t = Tree(F, Tr(StrType(u)))
    return lambda: (whole(OtherSym(t)), whole(sc.Expr(t)))
def s_symbol(u): return lambda: (whole(sc.Symbol(u)),)
def s_integer(u):
    n = hash(u)
    return lambda: (whole(sc.Integer(n)),)
def s_function(u): return lambda: (whole(sc.Function(u)),)
def s_add(u):
    a = sc.Symbol(u)
    return lambda: (whole(a + 1),)
def s_neg(u):
    a = sc.Symbol(u)
    return lambda: (whole(-a),)
def s_pow(u):
    a = sc.Symbol(u)
    return lambda: (whole(a ** 2), whole(2 / a))
def s_call_expr(u):
    a, f = sc.Symbol(u), sc.Function("f")
    return lambda: (whole(f(a, 2)),)
def s_args(u):
    e = sc.Expr(Tree(F, Tr(StrType(u)), X))
    return lambda: tuple(whole(a) for a in e.args)
def s_subs(u):
    e = sc.sin(sc.Symbol("y")) + 1
    a = sc.Symbol(u)
    fn = SubsFunc(e.rep, [sc.Symbol("y").rep])
    return lambda: (whole(fn(a.rep)),)
def s_wild(u): return lambda: (whole(sc.Expr.new_wild(u)),)
def s_names(u): return lambda: tuple(whole(e) for e in sc.symbols(f"{u}") if isinstance(e, sc.Expr)) if hasattr(sc, "symbols") else (whole(sc.Symbol(u)),)
def s_distinct(u): return lambda: (whole(StrType(u)), whole(KeyType(Key(u))), whole(sc.Symbol(u)), whole(sc.Function(u)))


def s_drop(u):
    """One thread drops the last reference while others build the same thing again."""
    box = [sc.sin(sc.Symbol(u))]
    def go():
        box.clear()
        return (whole(sc.sin(sc.Symbol(u))),)
    return go
def s_drop_atom(u):
    box = [StrType(u)]
    def go():
        box.clear()
        return (whole(StrType(u)),)
    return go
def s_drop_collect(u):
    class Cyc: pass
    c = Cyc(); c.me = c; c.e = sc.Symbol(u) + 1
    del c
    def go():
        gc.collect(0)
        return (whole(sc.Symbol(u) + 1),)
    return go


SCENARIOS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("s_")}


class CHECK:
    rule = "different (scenario, schedule) pairs"
    evaluations = "schedules+stress_rounds"
    plan = {"quick": {"seconds": 8, "min": 6, "case_cpu": 200}, "thorough": {"seconds": 300, "min": 40, "case_cpu": 300}}
    floors = {"cases": 40, "schedules": 3000, "switches": 3000, "exhausted_scenarios": 10, "stress_rounds": 400, "heap_scans": 40}
    assumptions = ["CPython with its global interpreter lock: threads switch between bytecodes"]

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.sched = Sched(extra_files=[__file__])
        for _ in range(2): self.one("atom", 2, switches({}), 0, "")     # the first traced thread misses its opcode events

    def fresh(self):
        self.n += 1
        return f"u{self.n}"

    def case(self, rng, idx):
        ctx = self.ctx
        names = list(SCENARIOS)
        k = idx - (idx + 1) // 3
        name = names[k % len(names)]
        gc.disable()
        try:
            if idx % 3 != 2: self.exhaustive(rng, name)
            else: self.stress(rng)
        finally: gc.enable()
        gc.collect()
        heap.scan(ctx, f"after {name}")
        ctx.sample({"scenario": name, "schedules so far": ctx.counts.get("schedules", 0)})

    def one(self, name, nthreads, decide, first, describe):
        ctx = self.ctx
        u = self.fresh()
        go = SCENARIOS[name](u)
        s = self.sched
        try: res = s.run([go] * nthreads, decide, first)
        except Deadlock as d: raise Violation(f"threads building the same expressions block each other: {d}", scenario=name, schedule=describe) from None
        for e in s.errors:
            if e is not None: raise Violation(f"{type(e).__name__} in a thread that builds an expression: {e}", scenario=name, schedule=describe) from e
        again = go()
        for r in res:
            for a, b in zip(r, again):
                if a is not b: raise Violation("two threads that build the same expression get different objects", scenario=name, schedule=describe,
                                               got=[[f"{x!r} at {id(x):x}" for x in r] for r in (*res, again)])
                if not (a == b and hash(a) == hash(b)): raise Violation("an object differs from itself", scenario=name)
        ctx.obs("schedules"); ctx.obs("switches", s.switches)
        return s.steps

    def exhaustive(self, rng, name):
        ctx = self.ctx
        steps = self.one(name, 2, switches({}), 0, "no switch")
        n = steps[0]
        for at in range(n + 1) if n < 600 or ctx.tier == "thorough" else range(rng.randrange(3), n + 1, 3):
            self.one(name, 2, one_switch(at), 0, f"switch at step {at} of {n}")
            ctx.sig(name, at)
        ctx.obs("exhausted_scenarios")
        b0 = self.sched.blocked_seen
        # two switches, then three threads
        for _ in range(150 if ctx.tier == "quick" else 600):
            i, j = sorted((rng.randrange(n), rng.randrange(n)))
            k = rng.randrange(n)
            if rng.random() < .6:
                plan = {(0, i): 1, (1, k): 0}
                if rng.random() < .5: plan[0, j] = 1
                t = 2
            else:
                plan = {(0, i): 1, (1, k): 2, (2, rng.randrange(n)): rng.randrange(2), (0, j): rng.randrange(1, 3)}
                t = 3
            self.one(name, t, switches(plan), 0, f"{t} threads, switches {plan}")
            ctx.sig(name, tuple(sorted(plan.items())))
        for _ in range(20):
            t = rng.choice([2, 3, 4]); p = rng.choice([.02, .1, .4])
            self.one(name, t, random_switches(rng, t, p), 0, f"{t} threads, random switches with probability {p}")
        ctx.obs("blocked_threads", self.sched.blocked_seen - b0)

    def stress(self, rng):
        """Free-running threads with a very short switch interval."""
        ctx = self.ctx
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            nt = rng.choice([2, 4, 8])
            rounds = 40
            names = [rng.choice(list(SCENARIOS)) for _ in range(rounds)]
            gos = [SCENARIOS[n](self.fresh()) for n in names]
            bar = threading.Barrier(nt)
            out, errs = [[None] * rounds for _ in range(nt)], []
            def work(t):
                try:
                    for r in range(rounds):
                        bar.wait(60)
                        out[t][r] = gos[r]()
                except BaseException as e:
                    errs.append(e); bar.abort()
            ths = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(nt)]
            for t in ths: t.start()
            for t in ths: t.join(120)
            if any(t.is_alive() for t in ths): raise Violation("threads building the same expressions never finish")
            errs = [e for e in errs if not isinstance(e, threading.BrokenBarrierError)]
            if errs: raise Violation(f"{type(errs[0]).__name__} in a thread that builds an expression: {errs[0]}", scenarios=names) from errs[0]
            for r in range(rounds):
                again = gos[r]()
                for t in range(nt):
                    check(all(a is b for a, b in zip(out[t][r], again)), "free-running threads that build the same expression get different objects", scenario=names[r])
            ctx.obs("stress_rounds", rounds)
        finally: sys.setswitchinterval(old)
