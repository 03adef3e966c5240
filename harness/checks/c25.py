"""C25: faults and interrupts inside every operation; afterwards everything has to behave as before."""
import ctypes, gc, sys, threading, time

import protosym.simplecas as sc
from protosym.core.atom import AtomType
from protosym.core.evaluate import Evaluator
from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, star
from protosym.core.tree import SubsFunc, Tr, Tree

from pv import heap
from pv.core import Violation, check, short
from pv.first import First
from pv.faults import Interrupt, Points, Rank, elsewhere, ignore_interrupts, spread
from pv.world import DEEP, OPS, Fault, Norm, World

SetAsyncExc = ctypes.pythonapi.PyThreadState_SetAsyncExc
SetAsyncExc.argtypes = [ctypes.c_ulong, ctypes.py_object]
FAST = [n for n, f in OPS.items() if not f.slow]


# -- calls that must fail: world -> list of (name, function) -------------------------------------------------------
def bad_calls(w):
    a, b = sc.Expr.new_wild("a"), sc.Expr.new_wild("b")
    e, f, x = w.E[0], sc.Function(w.tag + "f"), w.S[0]
    sf, fn, t = w.SF[0]
    M = w.M[0]
    se, D, ev = w.sev, w.D, w.ev
    new = sc.Symbol(w.tag + "bad")
    def rule(target, key, val): return lambda: target.__setitem__(key, val)
    ident = lambda *p: "changed"
    out = {
        "SubsFunc with too few arguments": lambda: sf(*[x.rep] * (len(t) - 1)),
        "SubsFunc with too many arguments": lambda: sf(*[x.rep] * (len(t) + 1)),
        "SubsFunc with a wrong argument": lambda: sf(*[3] * len(t)),
        "function with too many arguments": lambda: fn(*[x] * (len(t) + 1)),
        "function with a wrong argument": lambda: fn(*[object()] * len(t)),
        "xreplace with a wrong value": lambda: e.xreplace({x: object()}),
        "xreplace with a wrong key": lambda: e.xreplace({object(): x}),
        "as_function of something": lambda: e.as_function("x"),
        "empty Tree": lambda: Tree(),
        "Tree of ints": lambda: Tree(f.rep, 1),
        "Tree of new and bad": lambda: Tree(f.rep, (new * 3).rep, new),
        "Tree called with Expr": lambda: f.rep(x),
        "atom of nothing": lambda: Tr(3),
        "Expr of nothing": lambda: sc.Expr(3),
        "call with a wrong argument": lambda: f(new + 1, object()),
        "sum with an object": lambda: (new + 2) + object(),
        "product with a str": lambda: "s" * e,
        "power of a float": lambda: e ** 1.5,
        "Matrix of no lists": lambda: sc.Matrix([1, 2]),
        "ragged Matrix": lambda: sc.Matrix([[new, 1], [2]]),
        "Matrix of floats": lambda: sc.Matrix([[new, 1.5]]),
        "Matrix index out of range": lambda: M[9, 0],
        "Matrix index of another kind": lambda: M["a"],
        "Matrix sum of two shapes": lambda: M + sc.Matrix([[new, x]]),
        "Matrix sum with a list": lambda: M + [[1]],
        "Matrix operation of two shapes": lambda: M.binop(sc.Matrix([[x], [new]]), sc.Mul),
        "Matrix diff by an int": lambda: M.diff(3),
        "lambdify without the symbol": lambda: sc.lambdify([], sc.sin(new) + 1),
        "lambdify of an unknown function": lambda: sc.lambdify([x], f(x) + sc.sin(x)),
        "lambdify of an unknown function in a matrix": lambda: sc.lambdify([x], sc.Matrix([[x, f(x)]])),
        "lambdify of something": lambda: sc.lambdify([x], 3),
        "code without the symbol": lambda: (e + sc.sin(new)).to_llvm_ir(w.S),
        "evaluation without rules": lambda: Evaluator()((e + new).rep),
        "evaluation of an unknown symbol": lambda: (e + new).eval_f64(w.values[0]),
        "evaluation of an unknown function": lambda: (e + f(x)).eval_f64(w.values[0]),
        "evaluation dividing by zero": lambda: (e * (1 / (x + 1))).eval_f64({**w.values[0], x: -1.0}),
        "derivative without a rule": lambda: sc.diff(e + f(x, x), x),
        "derivative of a power": lambda: sc.diff(2 ** (x + new), x),
        "user derivative without a rule": lambda: D(f(x, x, x) + f(x, x), x),
        "derivative by an int": lambda: e.diff(3),
        "operation rule without a call": rule(se, sc.sin(a), 3),
        "operation rule of another signature": rule(se, sc.sin(a), PyOp2(ident)(a, b)),
        "operation rule with another wild": rule(se, sc.sin(a), PyOp1(ident)(b)),
        "operation rule with a function for atoms": rule(se, sc.sin(a), PyFunc1(ident)(a)),
        "operation rule with a generic function": rule(se, sc.sin(a), AtomFunc(ident)(a)),
        "rule for many arguments without a star": rule(se, sc.Add(a, b), PyOpN(ident)(a)),
        "star rule with a function of one": rule(se, sc.Mul(star(a)), PyOp1(ident)(a)),
        "atom rule with an operation": rule(se, sc.Integer[a], PyOp1(ident)(a)),
        "generic atom rule with an operation": rule(se, AtomRule[a], PyOp1(ident)(a)),
        "generic head rule with an operation": rule(se, HeadRule(a, b), PyOp2(ident)(a, b)),
        "derivative rule without a variable": rule(D, sc.sin(a), sc.sin(a)),
        "derivative rule with the variable twice": rule(D, (f(a, a), a), a),
        "derivative rule with another variable": rule(D, (sc.sin(a), b), a),
        "derivative rule with a wrong right side": rule(D, (sc.sin(a), a), 3),
        "derivative rule of something": rule(D, (3, a), a),
        "from_sympy of something": lambda: sc.Expr.from_sympy(__import__("sympy").tan(__import__("sympy").Symbol(w.tag + "s"))),
        "from_sympy of a fraction": lambda: sc.Expr.from_sympy(__import__("sympy").Symbol(w.tag + "s") / 2),
        "to_sympy of a compound head": lambda: (new + f(x)(x)).to_sympy(),
    }
    return out


# -- registrations: (world) -> (do it, probes) -------------------------------------------------------------------
def registrations(w, k):
    a, b = sc.Expr.new_wild("a"), sc.Expr.new_wild("b")
    x, y = w.S[0], w.S[1]
    f, n = sc.Function(w.tag + "f"), sc.Function(w.tag + "n")
    num = w.E[0].rep
    both = (f(x, y) + sc.sin(x) * n(y, x) + x ** 3 + n(2)) * 5
    see = lambda *es: lambda: [attempt(lambda: w.ev(v.rep)) for v in es]
    text = lambda *es: lambda: [attempt(lambda: w.sev(v)) for v in es]
    der = lambda *es: lambda: [attempt(lambda v=v: w.D(v, x)) for v in es]
    R = {
        "add_op1": (lambda: w.ev.add_op1(sc.sin.rep, lambda p: p + 5), see(both)),
        "add_op2": (lambda: w.ev.add_op2(f.rep, lambda p, q: p - q), see(both)),
        "add_opn": (lambda: w.ev.add_opn(n.rep, lambda p: len(p)), see(both)),
        "add_atom": (lambda: w.ev.add_atom(sc.Integer.atom_type, lambda p: p + 77), see(both)),
        "add_atom new": (lambda: w.ev.add_atom(sc.Symbol.atom_type, lambda p: 99), see(both)),
        "add_atom_generic": (lambda: w.ev.add_atom_generic(lambda p: 1234), see(both)),
        "add_op_generic": (lambda: w.ev.add_op_generic(lambda h, p: 4321), see(both)),
        "text op1": (lambda: w.sev.__setitem__(sc.sin(a), PyOp1(lambda p: "sine")(a)), text(both)),
        "text op2": (lambda: w.sev.__setitem__(f(a, b), PyOp2(lambda p, q: q + p)(a, b)), text(both)),
        "text opn": (lambda: w.sev.__setitem__(n(star(a)), PyOpN("-".join)(a)), text(both)),
        "text atom": (lambda: w.sev.__setitem__(sc.Symbol[a], PyFunc1(lambda p: p * 2)(a)), text(both)),
        "text atoms": (lambda: w.sev.__setitem__(AtomRule[a], AtomFunc(lambda p: "atom")(a)), text(both)),
        "text heads": (lambda: w.sev.__setitem__(HeadRule(a, b), HeadOp(lambda h, p: "head")(a, b)), text(both)),
        "derivative": (lambda: w.D.__setitem__((sc.sin(a), a), n(a)), der(both, sc.sin(x))),
        "derivative new": (lambda: w.D.__setitem__((n(a, b), b), f(a, b)), der(both, n(2, x))),
        "derivative two": (lambda: w.D.__setitem__((f(a, b), b), sc.cos(b) * n(a)), der(both, f(x, x))),
        "distributive": (lambda: w.D.add_distributive_rule(n), der(both, n(x, y, x))),
        "diff": (lambda: sc.diff.__setitem__((n(a), a), sc.cos(a) + n(a)), lambda: [attempt(lambda: n(n(x)).diff(x))]),
        "latex": (lambda: sc.expr.eval_latex.__setitem__(n(a), PyOp1(lambda p: "N" + p)(a)), lambda: [n(n(x)).eval_latex(), n(x, x).eval_latex() if 0 else ""]),
    }
    # the same head with a rule of another style before
    R.update({
        "one to many": (lambda: w.ev.add_opn(n.rep, lambda p: len(p) + 5), see(n(x), n(n(x)), both), lambda: w.ev.add_op1(n.rep, lambda p: p + 5)),
        "many to one": (lambda: w.ev.add_op1(n.rep, lambda p: p + 5), see(n(x), n(n(2))), lambda: w.ev.add_opn(n.rep, lambda p: len(p) * 3)),
        "two to many": (lambda: w.ev.add_opn(f.rep, lambda p: sum(p)), see(f(x, y), f(2, f(x, x))), lambda: w.ev.add_op2(f.rep, lambda p, q: p - 2 * q)),
        "many to two": (lambda: w.ev.add_op2(f.rep, lambda p, q: p - 2 * q), see(f(x, y), f(2, f(x, x))), lambda: w.ev.add_opn(f.rep, lambda p: sum(p))),
        "text one to many": (lambda: w.sev.__setitem__(n(star(a)), PyOpN("-".join)(a)), text(n(x), n(n(x))), lambda: w.sev.__setitem__(n(a), PyOp1(lambda p: p * 2)(a))),
        "text many to two": (lambda: w.sev.__setitem__(f(a, b), PyOp2(lambda p, q: q + p)(a, b)), text(f(x, 2)), lambda: w.sev.__setitem__(f(star(a)), PyOpN("-".join)(a))),
        "derivative again": (lambda: w.D.__setitem__((n(a, b), b), sc.sin(b)), der(n(2, x), n(x, x)), lambda: (w.D.__setitem__((n(a, b), b), f(a, b)), w.D.__setitem__((n(a, b), a), a))),
        "distributive with rules": (lambda: w.D.add_distributive_rule(n), der(n(2, x), n(x, x)), lambda: (w.D.__setitem__((n(a, b), b), f(a, b)), w.D.__setitem__((n(a, b), a), a))),
        "rule of a distributive one": (lambda: w.D.__setitem__((f(a, b), b), sc.sin(b)), der(f(2, x), f(x, x)), None),
    })
    names = list(R)
    name = names[k % len(names)]
    do, probe, *first = R[name]
    if first and first[0]: first[0]()
    return name, do, probe


def attempt(fn):
    try: return fn()
    except Exception as e: return type(e).__name__


KINDS = "lines", "lines", "calls", "rules", "lines", "registrations", "lines", "async"


class CHECK:
    rule = "different (operation, world, injection point) triples"
    level = "fault_enumeration"
    evaluations = "faults+rule_faults+registration_faults+failed_calls+interrupts"
    plan = {"quick": {"seconds": 9, "min": 8, "case_cpu": 200}, "thorough": {"seconds": 400, "min": 80, "case_cpu": 400}}
    floors = {"cases": 100, "faults": 3000, "frames_kept": 900, "interrupts": 100, "rule_faults": 300, "failed_calls": 200, "failed_again": 80, "registration_faults": 300, "heap_scans": 60, "results_compared": 10000, "deep_compared": 100, "first_faults": 100, "first_use_lines": 20}
    assumptions = ["an exception surfaces at the start of a line or at a call or return in the repository's code or weakref.py"]

    def __init__(self, ctx):
        self.ctx = ctx
        self.first = First(ctx, self.ref)
        self.n = 0
        self.points = Points()
        self.rank = Rank(lambda i: KINDS[(i % 8 + i // 8) % 8])
        ignore_interrupts()
        self.names = list(OPS)
        self.refs = {}

    def tag(self):
        self.n += 1
        return f"q{self.n:07d}"

    def world(self, seed):
        t = self.tag()
        w = World(seed, t, size=4)
        return w, lambda r: Norm(t)(r)        # reads the trees afresh every time

    def ref(self, seed, name, v):
        """The result in a world where nothing ever failed."""
        r = self.refs.get((seed, name, v))
        if r is None:
            if len(self.refs) > 5000: self.refs.clear()
            w, norm = self.world(seed)
            r = self.refs[seed, name, v] = norm(w.op(name, v)())
        return r

    def same(self, w, norm, pairs, what, **detail):
        for name, v in pairs:
            try: g = norm(w.op(name, v)())
            except Violation: raise
            except Exception as e: raise Violation(f"{what}: afterwards '{name}' or reading its result fails: {type(e).__name__}: {e}", world=w.seed, variant=v, **detail) from e
            x = self.ref(w.seed, name, v)
            if g != x: raise Violation(f"{what}: afterwards '{name}' gives another result", world=w.seed, variant=v, got=short(g), before=short(x), **detail)
            self.ctx.obs("results_compared")

    def sample(self, rng, k, slow=False):
        return [(rng.choice(self.names if slow else FAST), rng.randrange(4)) for _ in range(k)]

    def deep(self, rng, w, norm, k, what, **detail):
        """What worked at any depth still does."""
        self.same(w, norm, [(rng.choice(list(DEEP)), rng.randrange(4)) for _ in range(k)], what, **detail)
        self.ctx.obs("deep_compared", k)

    def unlocked(self, w, what):
        k = f"{w.tag}other"
        if not elsewhere(lambda: sc.Function(k)(sc.Symbol(k), 1)): raise Violation(f"{what}: afterwards another thread cannot make expressions")

    def case(self, rng, idx):
        ctx = self.ctx
        k = idx % 8 + (idx // 8)          # every worker comes to every kind
        kind = KINDS[k % 8]
        j = self.rank(idx) if kind == "lines" else idx // 2
        gc.disable()
        try:
            getattr(self, kind)(rng, j)
            if kind in ("lines", "registrations"): self.firsts(rng, idx)
        finally: gc.enable()
        gc.collect()
        heap.scan(ctx, f"after faults ({kind})")
        ctx.sample({"kind": kind, "faults so far": ctx.counts.get("faults", 0)})

    def lines(self, rng, j):
        ctx = self.ctx
        name, v = self.names[(j + ctx.seed * 7) % len(self.names)], rng.randrange(4)
        seed = rng.randrange(10 ** 9)
        x = self.ref(seed, name, v)
        warm, wnorm = self.world(seed)
        self.same(warm, wnorm, self.sample(rng, 3), "before")
        w, norm = self.world(seed)
        places = []
        n, r, _ = self.points.run(w.op(name, v), places=places)
        check(norm(r) == x, "traced run differs")
        cap = 60 if ctx.tier == "quick" else 2500
        for at in spread(rng, places, cap):
            if rng.random() < .5: w, norm = self.world(seed)
            else: w, norm = warm, wnorm
            exc = rng.choice([Interrupt, Fault])
            go = w.op(name, v)
            keep = rng.random() < .4
            k, r, where = self.points.run(go, at, exc, keep)
            if not isinstance(r, (Interrupt, Fault)) and where is None: continue      # a warm world has fewer points
            ctx.obs("faults")
            if keep: ctx.obs("frames_kept")
            ctx.sig(name, v, seed, at)
            what = f"'{name}' interrupted at {where} (point {at} of {n})"
            self.same(w, norm, [(name, v)], what, exception=exc.__name__)
            g = norm(go())
            check(g == x, lambda: f"{what}: repeating it gives another result", world=seed, got=lambda: short(g), before=lambda: short(x))
            self.same(w, norm, self.sample(rng, 2), what, exception=exc.__name__)
            if rng.random() < .03: self.deep(rng, w, norm, 1, what)
        self.deep(rng, warm, wnorm, 4, f"'{name}' interrupted at every point")
        self.unlocked(warm, f"'{name}' interrupted")
        self.same(warm, wnorm, [(m, rng.randrange(4)) for m in (self.names if rng.random() < .3 else FAST)], f"'{name}' interrupted at every point")

    def firsts(self, rng, k):
        """The very first use of an operation in a process is interrupted."""
        ctx, seed, p = self.ctx, rng.randrange(10 ** 9), (self.names[k % len(self.names)], rng.randrange(4))
        n, ats = self.first.points(rng, seed, p, 14 if ctx.tier == "quick" else 80)
        for at in ats:
            others = [(p[0], rng.randrange(4)), (rng.choice(self.names), rng.randrange(4))]
            what = f"'{p[0]}' interrupted when it was used for the first time in a process"
            out = self.first.ask(what, "fault", seed, *p, at, rng.random() < .5, others)
            if not out["where"]: continue
            what += f", at {out['where']}"
            self.first.same(what + ": repeating it", seed, p, out["again"])
            for q, r in zip(others, out["others"]): self.first.same(what, seed, q, r)
            ctx.obs("first_faults"); ctx.sig("first", *p, seed, at)

    def calls(self, rng, j):
        ctx = self.ctx
        seed = rng.randrange(10 ** 9)
        w, norm = self.world(seed)
        self.same(w, norm, self.sample(rng, 3), "before")
        bad = bad_calls(w)
        names = rng.sample(list(bad), len(bad))
        for n in names[:len(names) if ctx.tier == "thorough" else 30]:
            try: r = bad[n]()
            except Exception as e:
                exc, kept = type(e).__name__, e if rng.random() < .6 else None
                if kept is not None:
                    # the call fails again while the first exception keeps its frames
                    try: r = bad[n]()
                    except Exception as e2: check(type(e2) is type(e), lambda: f"'{n}' fails with {exc}, and then with {type(e2).__name__}")
                    else: raise Violation(f"'{n}' fails with {exc}, but gives {short(r)} the second time", world=seed)
                    ctx.obs("failed_again")
            else:
                ctx.obs("accepted_calls")              # not judged here
                w, norm = self.world(seed); bad = bad_calls(w)
                continue
            ctx.obs("failed_calls")
            ctx.sig(n, exc)
            about = [m for m in ("sym evaluator", "user diff", "matrix text", "matrix add", "diff", "evaluator", "function call", "subs call") if rng.random() < .5]
            self.same(w, norm, self.sample(rng, 2) + [(m, rng.randrange(4)) for m in about], f"after '{n}' ({exc})")
            self.fresh_ok(w, n)
            kept = None
        self.deep(rng, w, norm, 6, "after bad calls")
        self.unlocked(w, "bad calls")
        self.same(w, norm, [(m, rng.randrange(4)) for m in FAST], f"after bad calls {names}")

    def fresh_ok(self, w, n):
        """What a failed call was to make can be made."""
        f, new = sc.Function(w.tag + "f"), sc.Symbol(w.tag + "bad")
        x = w.S[0]
        e = f(new + 1, x)
        check(e is f(sc.Symbol(w.tag + "bad") + 1, w.S[0]) and e.rep.children == (f.rep, (new + 1).rep, x.rep), f"after '{n}' equal expressions are not one object")
        check(repr(e) == f"{w.tag}f(({w.tag}bad + 1), {w.tag}x)", f"after '{n}' a new expression is wrong", got=repr(e))

    def rules(self, rng, j):
        """The k-th rule called raises."""
        ctx = self.ctx
        seed = rng.randrange(10 ** 9)
        for name in ("evaluator", "evaluator recursive", "transformer", "sym evaluator"):
            v = rng.randrange(4)
            w, norm = self.world(seed)
            count = [0]
            w.tick = lambda: count.__setitem__(0, count[0] + 1)
            x = norm(w.op(name, v)())
            n = count[0]
            check(x == self.ref(seed, name, v), "counting the rules changes the result")
            warm, wnorm = self.world(seed)
            for at in range(n) if n < 25 or ctx.tier == "thorough" else sorted(rng.sample(range(n), 25)):
                w, norm = (warm, wnorm) if rng.random() < .6 else self.world(seed)
                left = [at]
                def tick():
                    left[0] -= 1
                    if left[0] < 0: raise exc("rule")
                exc = rng.choice([Fault, Interrupt])
                w.tick = tick
                go = w.op(name, v)
                try: go()
                except (Fault, Interrupt): pass
                else: raise Violation(f"'{name}': a rule raised but the evaluation returned a result", world=seed, rule=f"call {at} of {n}")
                w.tick = lambda: None
                ctx.obs("rule_faults"); ctx.sig("rule", name, v, seed, at)
                what = f"'{name}' where rule call {at} of {n} raised"
                g = norm(go())
                check(g == x, lambda: f"{what}: repeating it gives another result", world=seed, got=lambda: short(g), before=lambda: short(x))
                self.same(w, norm, [(name, rng.randrange(4))] + self.sample(rng, 1), what)
            if name != "evaluator recursive": self.same(warm, wnorm, [(f"deep {name}", rng.randrange(4))], f"'{name}' where rules raised")
            self.deep(rng, warm, wnorm, 1, f"'{name}' where rules raised")

    def registrations(self, rng, j):
        ctx = self.ctx
        seed = rng.randrange(10 ** 9)
        for _ in range(3):
            k = rng.randrange(1000)
            def made():
                w, norm = self.world(seed)
                return (w, norm, *registrations(w, k))
            w, norm, name, do, probe = made()
            before = norm(probe())
            n, r, _ = self.points.run(do)
            after = norm(probe())
            check(before != after, f"registration '{name}' has no effect", got=after)
            for at in range(n) if n < 40 or ctx.tier == "thorough" else sorted(rng.sample(range(n), 40)):
                w, norm, _, do, probe = made()
                if rng.random() < .5: check(norm(probe()) == before, f"before registration '{name}'", world=seed)
                _, r, where = self.points.run(do, at, rng.choice([Interrupt, Fault]), rng.random() < .4)
                if where is None: continue
                ctx.obs("registration_faults"); ctx.sig("registration", name, seed, at)
                g = norm(probe())
                check(g in (before, after), f"registration '{name}' interrupted at {where}: neither the rules before nor after it", got=short(g), before=short(before), after=short(after))
                # nothing else has changed
                self.same(w, norm, [(m, rng.randrange(4)) for m in rng.sample(["repr", "eval_f64", "diff", "function call", "transformer", "bin_expand", "to sympy"], 2)], f"registration '{name}' interrupted")
                do()
                g = norm(probe())
                check(g == after, f"registration '{name}' interrupted at {where}: repeating it gives other rules", got=short(g), after=short(after))
            self.unlocked(w, f"registration '{name}' interrupted")

    def async_(self, rng, j):
        """Real asynchronous exceptions, at times of their own."""
        ctx = self.ctx
        seed = rng.randrange(10 ** 9)
        w, norm = self.world(seed)
        names = rng.sample([n for n in FAST], 6)
        jobs = [w.op(n, v) for n in names for v in range(4)]
        fresh = 0
        stop = threading.Event()
        hits = [0]
        def body():
            i = 0
            while not stop.is_set():
                try:
                    while not stop.is_set():
                        i += 1
                        jobs[i % len(jobs)]()
                        k = f"{w.tag}_{i}"
                        e = sc.Function(k)(sc.Symbol(k), i) + sc.Symbol(k)
                        if e is not sc.Function(k)(sc.Symbol(k), i) + sc.Symbol(k): hits.append("two objects for one expression")
                except Interrupt: hits[0] += 1
        old, hook = sys.getswitchinterval(), threading.excepthook
        sys.setswitchinterval(1e-5)
        threading.excepthook = lambda a: None if issubclass(a.exc_type, Interrupt) else hits.append(f"{a.exc_type.__name__}: {a.exc_value}")
        try:
            t, sent = None, 0
            end = time.monotonic() + (.8 if ctx.tier == "quick" else 6)
            while time.monotonic() < end:
                if t is None or not t.is_alive():
                    t = threading.Thread(target=body, daemon=True); t.start()
                time.sleep(rng.random() * .003)
                sent += SetAsyncExc(t.ident, Interrupt)
            stop.set()
            t.join(30)
            check(not t.is_alive(), "a thread that was interrupted never finishes", operations=names)
        finally:
            sys.setswitchinterval(old); threading.excepthook = hook
        check(len(hits) == 1, lambda: f"after an asynchronous exception: {hits[1]}", operations=names)
        ctx.obs("interrupts", hits[0])
        ctx.sig("async", tuple(names), seed)
        self.unlocked(w, "asynchronous exceptions")
        self.same(w, norm, [(n, v) for n in names for v in range(4)] + self.sample(rng, 10), "after asynchronous exceptions", operations=names)


setattr(CHECK, "async", CHECK.async_)
