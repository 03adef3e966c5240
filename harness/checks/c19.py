"""C19: steps, result sizes and CPU time against the number of distinct subexpressions."""
import gc, math, signal, time

import protosym.simplecas as sc
from protosym.core.evaluate import Evaluator, Transformer
from protosym.core.sym import SymDifferentiator
from protosym.core.tree import SubsFunc, Tree, forward_graph, topological_sort, topological_split

from pv.core import Violation, check
from pv.steps import OverBudget, Steps

x, y = sc.Symbol("x"), sc.Symbol("y")
f, g, h = sc.Function("f"), sc.Function("g"), sc.Function("h")


def units(*roots):
    """Distinct subexpressions plus the arguments they have, and how often each level is used."""
    seen, stack, n = set(), [r.rep if hasattr(r, "rep") else r for r in roots], 0
    while stack:
        t = stack.pop()
        if t in seen: continue
        seen.add(t)
        n += 1 + max(0, len(t.children) - 1)
        stack.extend(t.children[1:])
    return n


# One level of a family: (recent expressions, level) -> next expression.  Every family is exponential as a tree
# unless it says otherwise; bounded families keep the values of numerical evaluation finite.
LEVELS = {
    "square plus": lambda p, k: p[-1] ** 2 + p[-1],
    "add twice": lambda p, k: p[-1] + p[-1],
    "mul twice": lambda p, k: p[-1] * p[-1],
    "product sin": lambda p, k: p[-1] * sc.sin(p[-1]),
    "fibonacci": lambda p, k: p[-1] + p[-2] * k,
    "fibonacci sin": lambda p, k: sc.sin(p[-1] * p[-2]),
    "three": lambda p, k: sc.Add(p[-1], p[-2], p[-3], p[-1]),
    "trig": lambda p, k: sc.sin(p[-1] + sc.cos(p[-1])),
    "trig y": lambda p, k: sc.cos(sc.Mul(p[-1], y, p[-1])),
    "triple": lambda p, k: sc.sin(sc.Mul(p[-1], p[-1], p[-1])),
    "difference": lambda p, k: sc.sin(p[-1] - p[-2]),
    "power of sum": lambda p, k: sc.cos((p[-1] + p[-2]) ** 3),
    "chain": lambda p, k: sc.sin(p[-1]) + 1,          # not shared
}
FUN_LEVELS = {
    "f twice": lambda p, k: f(p[-1], p[-1]),
    "f g": lambda p, k: f(g(p[-1]), p[-2]),
    "list": lambda p, k: sc.List(p[-1], p[-2]),
    "g h": lambda p, k: g(h(p[-1], x, p[-1])) + p[-2],
}
BOUNDED = ["trig", "trig y", "triple", "difference", "power of sum", "chain", "fibonacci sin"]


def family(level, n):
    p = [y, x + y, x]
    for k in range(1, n + 1): p.append(level(p, k))
    return p[-1]


def wide(n):
    """Wide sharing: many parents of one expensive subexpression, one node with many arguments."""
    s = family(LEVELS["trig"], 10)
    return sc.Add(*[sc.sin(s + k) for k in range(n)])


def widemul(n):
    return sc.Mul(*[sc.cos(x + k) for k in range(n)])


def manysyms(n):
    S = [sc.Symbol(f"s{k}") for k in range(n + 1)]
    return sc.List(*[sc.sin(a * b) for a, b in zip(S, S[1:])])


def entries(n):
    """Many entries that share one large subexpression."""
    s = family(LEVELS["trig"], n)
    return sc.List(*[sc.sin(s + k) for k in range(n)])


def ladder(n):
    a, b = x, y
    for k in range(n): a, b = sc.sin(a + b), sc.cos(a * b)
    return a * b


LONGEST = 40        # seconds of CPU time for one operation; the slowest here takes about one


def too_long(*a):
    raise Violation(f"one operation takes more than {LONGEST} s of CPU time")


class CHECK:
    rule = "different (operation, family of expressions, sizes) combinations"
    evaluations = "step_counts+time_ratios+wide_ratios"
    plan = {"quick": {"seconds": 9, "min": 8, "case_cpu": 120}, "thorough": {"seconds": 300, "min": 60, "case_cpu": 200}}
    floors = {"cases": 64, "step_counts": 250, "max_log2_tree_size": 100, "result_sizes": 120, "time_ratios": 24, "matrices_with_sharing": 5, "costs_with_live_expressions": 60, "costs_after_repetition": 14, "wide_ratios": 15, "sympy_conversions": 20, "steps": 5000000}

    def __init__(self, ctx):
        self.ctx = ctx
        signal.signal(signal.SIGVTALRM, too_long)
        self.steps = Steps()
        self.ev = Evaluator()
        self.ev.add_atom_generic(lambda a: 1)
        self.ev.add_op_generic(lambda h, a: 1 + len(a))
        self.ev.add_op1(sc.sin.rep, lambda a: a)
        self.ev.add_opn(sc.Add.rep, lambda a: len(a))
        self.tr = Transformer()
        self.tr.add_op1(sc.sin.rep, lambda a: sc.cos.rep(a))
        self.D = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
        a, b, c = sc.a, sc.b, sc.Expr.new_wild("c")
        self.D[sc.sin(a), a] = sc.cos(a)
        self.D[sc.cos(a), a] = -sc.sin(a)
        self.D[a ** b, a] = b * a ** (b - 1)
        self.D[f(a, b), a] = g(b) * h(a, b, a)
        self.D[f(a, b), b] = f(a, g(a))
        self.D[g(a), a] = h(a, a, 2)
        self.D[h(a, b, c), a] = f(b, c)
        self.D[h(a, b, c), b] = g(a)
        self.D[h(a, b, c), c] = g(c)
        self.ident = Transformer()

    # operations: name -> function of the expression giving a callable; the callable gives (result expressions to measure or None)
    def operations(self, fam, kind):
        vals = {x: .4, y: .7}
        o = {
            "topological_sort": lambda e: lambda: self.n(topological_sort(e.rep), e),
            "topological_sort heads": lambda e: lambda: topological_sort(e.rep, heads=True) and None,
            "topological_split": lambda e: lambda: topological_split(e.rep) and None,
            "forward_graph": lambda e: lambda: forward_graph(e.rep) and None,
            "count_ops_graph": lambda e: lambda: self.count(e),
            "evaluator": lambda e: lambda: self.ev(e.rep) and None,
            "evaluator with value": lambda e: lambda: self.ev(e.rep, {y.rep: 5}) and None,
            "transformer": lambda e: lambda: [self.tr(e.rep)],
            "identity transformer": lambda e: lambda: [self.ident(e.rep)],
            "bin_expand": lambda e: lambda: [e.bin_expand()],
            "subs": lambda e: lambda: [e.xreplace({x: g(y)})],
            "subs two": lambda e: lambda: [e.xreplace({x: y, y: x})],
            "subs head": lambda e: lambda: [Sc(e, sc.sin, sc.cos)],
            "subs absent": lambda e: lambda: [e.xreplace({sc.Symbol("absent"): y})],
            "subs function": lambda e: self.subscall(e),
            "call again": lambda e: lambda: [Tree(*e.rep.children)],
        }
        if fam == "manysyms":
            syms = lambda e: [t for t in topological_sort(e.rep) if not t.children]
            o["subs all symbols"] = lambda e: self.suball(e, syms(e))
            o["evaluate all symbols"] = lambda e: self.evall(e, syms(e))
            o["subs all products"] = lambda e: self.suball(e, [t for t in topological_sort(e.rep) if t.children and t.children[0] is sc.Mul.rep])
            return o
        if fam == "entries":
            def rows(e):
                a = list(e.args)
                return [a] if len(a) < 6 else [a[:len(a) // 2], a[-(len(a) // 2):]]
            o["matrix diff"] = lambda e: lambda: [sc.Matrix(rows(e)).diff(x).elements_graph]
            o["matrix diff y"] = lambda e: lambda: [sc.Matrix(rows(e)[::-1]).diff(y).elements_graph]
            o["matrix to_llvm_ir"] = lambda e: lambda: sc.Matrix(rows(e)).to_llvm_ir([x, y])
            o["matrix add"] = lambda e: lambda: [(sc.Matrix(rows(e)) + sc.Matrix(rows(e))).elements_graph]
            o["matrix binop"] = lambda e: lambda: [sc.Matrix(rows(e)).binop(sc.Matrix(rows(e)[::-1]), sc.Mul).elements_graph]
            o["matrix to_sympy"] = lambda e: lambda: sc.Matrix(rows(e)).to_sympy() and None
            o["matrix from_sympy"] = lambda e: self.fromsympy(sc.Matrix(rows(e)))
            o["diff"] = lambda e: lambda: [e.diff(x)]
            o["user diff of the sum"] = lambda e: lambda: [self.D(sc.Add(*e.args), x)]
            return o
        if fam in ("f twice", "f g", "trig", "chain", "power of sum"):
            # (SymPy's own tuples take exponential time, and its flattening makes the other families larger)
            o["to_sympy"] = lambda e: lambda: e.to_sympy() and None
            o["from_sympy"] = self.fromsympy
            o["matrix to_sympy"] = lambda e: lambda: sc.Matrix([[e, 0, f(e)], [e, g(e, x), 1]]).to_sympy() and None
            o["matrix from_sympy"] = lambda e: self.fromsympy(sc.Matrix([[e, 0, f(e)], [e, g(e, x), 1]]))
        if fam not in ("wide", "widemul"): o["count_ops_tree"] = lambda e: lambda: e.count_ops_tree() and None
        if kind != "fun":
            if fam in BOUNDED or fam in ("wide", "widemul", "ladder"):
                o["eval_f64"] = lambda e: lambda: e.eval_f64(vals) and None
                if fam != "widemul": o["lambdify"] = lambda e: lambda: sc.lambdify([x, y], e) and None
            o["to_llvm_ir"] = lambda e: lambda: e.to_llvm_ir([x, y])
            o["matrix to_llvm_ir"] = lambda e: lambda: sc.Matrix([[e, 0], [sc.sin(e), e]]).to_llvm_ir([x, y])
            if fam != "widemul":
                o["diff"] = lambda e: lambda: [e.diff(x)]
                o["matrix diff"] = lambda e: lambda: [sc.Matrix([[e, sc.cos(e)], [1, e * x]]).diff(x).elements_graph]
                if fam != "wide":
                    o["diff 2"] = lambda e: lambda: [e.diff(x, 2)]
                    o["diff y x"] = lambda e: lambda: [e.diff(y).diff(x)]
                    o["diff 3"] = lambda e: lambda: [e.diff(x, 3)]
        if fam not in ("widemul", "list"):
            o["user diff"] = lambda e: lambda: [self.D(e, x)]
        return o

    def suball(self, e, targets):
        reps = [g.rep(t) for t in targets]
        return lambda: [SubsFunc(e.rep, targets)(*reps)]

    def evall(self, e, syms):
        vals = {s: 3 for s in syms}
        return lambda: self.ev(e.rep, vals) and None

    def fromsympy(self, e):
        s = e.to_sympy()
        self.ctx.obs("sympy_conversions")
        if isinstance(e, sc.Matrix): return lambda: [sc.Matrix.from_sympy(s).elements_graph]
        return lambda: [sc.Expr.from_sympy(s)]

    def n(self, lst, e):
        check(len(lst) == len(set(lst)), "the sort lists a subexpression twice")

    def count(self, e):
        check(e.count_ops_graph() < 10**6, "count")

    def subscall(self, e):
        fn = SubsFunc(e.rep, [x.rep])
        return lambda: [fn(g(x).rep)]

    def case(self, rng, idx):
        ctx = self.ctx
        if idx % 24 == 5: return self.live(rng)
        if idx % 24 == 17: return self.widest(rng)
        if idx % 3 == 2: return self.timing(rng, idx)
        k = rng.random() if idx % 6 != 1 else 1
        if k < .6: kind, fam = "alg", rng.choice(list(LEVELS)); make = lambda n: family(LEVELS[fam], n)
        elif k < .75: kind, fam = "fun", rng.choice(list(FUN_LEVELS)); make = lambda n: family(FUN_LEVELS[fam], n)
        elif k < .85: kind, fam, make = "alg", "wide", wide
        elif k < .9: kind, fam, make = "alg", "widemul", widemul
        elif k < .93: kind, fam, make = "fun", "manysyms", manysyms
        elif k < .97 or idx % 3 == 1: kind, fam, make = "alg", "entries", entries; ctx.obs("matrices_with_sharing")
        else: kind, fam, make = "alg", "ladder", ladder
        n1 = rng.choice([60, 130, 300] if fam != "entries" else [130, 200])
        ops = self.operations(fam, kind)
        ops["build"] = None
        for name in rng.sample(list(ops), min(len(ops), 8)):
            big = min(n1, 60) if name in ("diff 3", "lambdify") or "sympy" in name else n1
            if name == "build":
                op = lambda n: (lambda: [make(n)])
            else:
                def op(n, name=name):
                    e = make(n)
                    return ops[name](e)
            self.measure(name, fam, make, op, big)

    def measure(self, name, fam, make, op, n1):
        ctx = self.ctx
        op(3)()     # lazy imports
        rate, grow = 0, 0
        for n0 in (5, 9):
            u = units(make(n0))
            fn = op(n0)
            s, r = self.steps.run(fn, 10**7)
            rate = max(rate, s / u)
            grow = max(grow, size(r) / u)
            del fn, r
        e = make(n1); u = units(e)
        fn = op(n1)
        budget = int(3 * rate * u) + 3000
        try: s, r = self.steps.run(fn, budget)
        except OverBudget:
            raise Violation(f"{name} takes more than {budget} steps for an expression with {u} distinct subexpressions and arguments; "
                            f"{rate:.0f} each were enough for small ones", family=fam, levels=n1) from None
        if name not in ("build", "call again"): check(s >= len(set_of(e)) or name in ("subs absent", "subs function"), f"harness: no steps were counted in {name}")
        if isinstance(r, (list, str)):
            check(size(r) <= 3 * grow * u + 200, lambda: f"{name}: the result has {size(r)} distinct subexpressions and arguments for {u} of the expression",
                  family=fam, levels=n1)
            ctx.obs("result_sizes")
        ctx.obs("step_counts"); ctx.obs("steps", s)
        if fam not in ("wide", "widemul", "chain"): ctx.counts["max_log2_tree_size"] = max(ctx.counts.get("max_log2_tree_size", 0), n1)
        ctx.sig(name, fam, n1)
        ctx.sample({"operation": name, "family": fam, "levels": n1, "distinct subexpressions and arguments": u, "steps": s})

    # -- CPU time, for work done inside C functions ----------------------------
    TIMED = ["build", "topological_sort", "topological_sort heads", "forward_graph", "count_ops_graph", "evaluator", "evaluator with value", "transformer", "bin_expand", "subs", "subs two",
             "subs absent", "subs function", "eval_f64", "to_llvm_ir", "matrix to_llvm_ir", "diff", "matrix diff", "user diff", "matrix", "matrix add", "matrix tolist"]

    def timing(self, rng, idx):
        ctx = self.ctx
        for _ in range(2):
            name = rng.choice(self.TIMED)
            fam = rng.choice(["trig", "chain", "fibonacci sin", "wide"])
            make = wide if fam == "wide" else (lambda n: family(LEVELS[fam], n))
            if fam == "wide" and "matrix" in name: continue
            if rng.random() < .2: fam, make, name = "manysyms", manysyms, rng.choice(["subs all symbols", "evaluate all symbols", "subs all products", "forward_graph", "topological_sort"])
            lo, hi = 400, 6400
            if name == "matrix":
                def op(n):
                    L = [[sc.sin(x + i), 0, y] for i in range(n)]
                    return lambda: sc.Matrix(L)
            elif name in ("matrix add", "matrix tolist"):
                def op(n, name=name):
                    M = sc.Matrix([[sc.sin(x + i), 0, y] for i in range(n)])
                    return (lambda: M + M) if name == "matrix add" else M.tolist
            elif name == "build": op = lambda n: (lambda: make(n))
            else:
                ops = self.operations(fam, "alg")
                def op(n): return ops[name](make(n))
            ratio = math.inf
            for attempt in range(5):
                ratio = min(ratio, self.cpu(op(hi), 1) / max(self.cpu(op(lo), 8), 5e-5))
                if ratio < 60: break
            if ratio >= 60:
                raise Violation(f"{name}: {hi // lo} times as many subexpressions take {ratio:.0f} times as long", family=fam)
            ctx.obs("time_ratios")
            ctx.counts["max_time_ratio"] = max(ctx.counts.get("max_time_ratio", 0), round(ratio, 1))
            ctx.sig("time", name, fam)

    # -- CPU time for one operation with very many arguments ----
    def widest(self, rng):
        ctx, lo, hi = self.ctx, 1000, 64000
        tag = rng.randrange(10**6)
        kind = rng.choice(["symbols", "integers", "same", "calls", "mixed"])
        def args(n):
            if kind == "symbols": return [sc.Symbol(f"w{tag}.{k}") for k in range(n)]
            if kind == "integers": return [sc.Integer(tag + k) for k in range(n)]
            if kind == "same": return [x] * n
            if kind == "calls": return [sc.sin(sc.Integer(tag + k)) for k in range(n)]
            return [(x, y, sc.Integer(k), sc.Symbol(f"w{k}"))[k % 4] for k in range(n)]
        heads = {"Add": sc.Add, "Mul": sc.Mul, "f": f, "List": sc.List}
        # name -> (heads, what to time for n arguments)
        def new(fn): return lambda h, a: (lambda: fn(h, a))
        def on(fn): return lambda h, a: fn(h(*a))
        ops = {
            "build": ("Add Mul f List", new(lambda h, a: h(*a))),
            "build again": ("Add f", lambda h, a: (lambda e=h(*a): Tree(*e.rep.children))),
            "args": ("Add f", on(lambda e: lambda: e.args)),
            "topological_sort": ("Add f List", on(lambda e: lambda: topological_sort(e.rep) and None)),
            "topological_sort heads": ("Mul f", on(lambda e: lambda: topological_sort(e.rep, heads=True) and None)),
            "topological_sort exclude": ("Mul f", lambda h, a: (lambda e=h(*a), s={v.rep for v in a[::2]}: topological_sort(e.rep, exclude=s) and None)),
            "topological_split": ("Add f", on(lambda e: lambda: topological_split(e.rep) and None)),
            "forward_graph": ("Add f List", on(lambda e: lambda: forward_graph(e.rep) and None)),
            "count_ops_graph": ("Add f", on(lambda e: e.count_ops_graph)),
            "count_ops_tree": ("Add f", on(lambda e: e.count_ops_tree)),
            "evaluator": ("Add f", on(lambda e: lambda: self.ev(e.rep))),
            "eval_recursive": ("Add f", on(lambda e: lambda: self.ev.eval_recursive(e.rep, {}))),
            "transformer": ("Add f", on(lambda e: lambda: self.tr(e.rep))),
            "bin_expand": ("Add Mul f List", on(lambda e: e.bin_expand)),
            "subs": ("Add f List", on(lambda e: lambda: e.xreplace({x: g(y)}))),
            "subs function": ("Add f", on(lambda e: lambda fn=e.as_function(x): fn(y))),
            "subs all": ("Add f", lambda h, a: self.suball(h(*a), list(dict.fromkeys(v.rep for v in a)))),
            "head replaced": ("Add f", on(lambda e: lambda: Sc(e, e.head, g))),
            "eval_f64": ("Add Mul", lambda h, a: (lambda e=h(*a), v={s: .5 for s in a if not s.args}: e.eval_f64(v))),
            "repr": ("Add Mul f", on(lambda e: lambda: repr(e))),
            "latex": ("Add Mul f", on(lambda e: e.eval_latex)),
            "tree text": ("Add f", on(lambda e: lambda: (repr(e.rep), str(e.rep)))),
            "diff": ("Add List", on(lambda e: lambda: e.diff(x))),
            "diff of one factor": ("Mul", lambda h, a: (lambda e=h(*a[1:], sc.sin(y)): e.diff(y)) if kind not in ("mixed",) else (lambda: None)),
            "to_llvm_ir": ("Add Mul", lambda h, a: (lambda e=h(*a[:len(a) // 4]), v=[s for s in dict.fromkeys(a) if not s.args and isinstance(s.rep.value.value, str)][:1]: attempt_ir(e, v))),
            "matrix": ("List", lambda h, a: (lambda: sc.Matrix([a]))),
            "matrix repr": ("List", lambda h, a: (lambda M=sc.Matrix([a]): repr(M))),
            "matrix diff": ("List", lambda h, a: (lambda M=sc.Matrix([[v] for v in a]): M.diff(x))),
            "matrix add": ("List", lambda h, a: (lambda M=sc.Matrix([a, a[::-1]]): M + M)),
        }
        for name in rng.sample(list(ops), 6):
            hs, op = ops[name]
            h = heads[rng.choice(hs.split())]
            ratio = math.inf
            for attempt in range(4):
                t = self.cpu(op(h, args(hi)), 1)
                ratio = min(ratio, t / max(self.cpu(op(h, args(lo)), 5), 1e-4))
                if ratio < 320: break
            if ratio >= 320:
                raise Violation(f"{name}: an operation with {hi // lo} times as many arguments takes {ratio:.0f} times as long", kind=kind, head=h)
            ctx.obs("wide_ratios")
            ctx.counts["max_wide_ratio"] = max(ctx.counts.get("max_wide_ratio", 0), round(ratio, 1))
            ctx.sig("wide", name, kind, str(h))

    # -- cost of an operation while many unrelated expressions are alive and after many operations ----
    def live(self, rng):
        ctx, n = self.ctx, 8
        tag = rng.randrange(10**9)
        fams = {k: LEVELS[k] for k in ("trig", "chain", "fibonacci sin")}
        ops = {}
        for fam, level in fams.items():
            e = family(level, n)
            for name, o in self.operations(fam, "alg").items():
                if name != "lambdify": ops[fam, name] = o(e)
        M = sc.Matrix([[sc.sin(x + i), 0, y] for i in range(n)])
        ops.update({("matrix", "new"): lambda: sc.Matrix([[x, 0], [y, sc.sin(x)]]), ("matrix", "add"): lambda: M + M, ("matrix", "tolist"): M.tolist, ("matrix", "index"): lambda: M[n - 1, 0],
                    ("matrix", "diff"): lambda: M.diff(x), ("matrix", "repr"): lambda: repr(M),
                    ("build", "new symbol"): lambda: [sc.Symbol(f"new{tag}.{k}") for k in range(20)],
                    ("build", "old symbol"): lambda: [sc.Symbol("x") for k in range(20)],
                    ("build", "new expression"): lambda: sc.sin(x + sc.Integer(tag + 7)) * y,
                    ("build", "head and args"): lambda: [t.args for t in (x + y, sc.sin(x))],
                    ("rules", "evaluator"): lambda: sc.Expr.new_evaluator("e", int), ("rules", "differentiator rule"): lambda: self.D.__setitem__((sc.sin(sc.a), sc.a), sc.cos(sc.a)),
                    ("rules", "differentiator"): lambda: SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)})
        names = rng.sample(list(ops), 26)
        for k in names: ops[k]()
        before = {k: self.cpu(ops[k], 5) for k in names}
        kind = rng.choice(["symbols", "integers", "chains", "calls"])
        m = 150000
        if kind == "symbols": keep = [sc.Symbol(f"live{tag}.{k}") for k in range(m)]
        elif kind == "integers": keep = [sc.Integer(tag + 1000 + k) for k in range(m)]
        elif kind == "calls": keep = [f(sc.x, sc.Integer(tag + 1000 + k)) for k in range(m // 2)]
        else:
            keep = [x]
            for k in range(m): keep.append(sc.sin(keep[-1]))
        for k in names:
            for attempt in range(6):
                t = self.cpu(ops[k], 5)
                if t <= 6 * before[k] + 3e-4: break
            else:
                raise Violation(f"{k[1]} takes {t * 1e6:.0f} us of CPU time while {m} other {kind} are alive, {before[k] * 1e6:.0f} us without them", family=k[0])
            ctx.obs("costs_with_live_expressions")
            ctx.counts["max_live_ratio"] = max(ctx.counts.get("max_live_ratio", 0), round(t / max(before[k], 5e-5), 1))
        while keep: keep.pop()
        for k in rng.sample(names, 6):
            for _ in range(400): ops[k]()
            for attempt in range(6):
                t = self.cpu(ops[k], 5)
                if t <= 6 * before[k] + 3e-4: break
            else: raise Violation(f"{k[1]} takes {t * 1e6:.0f} us of CPU time after 400 times, {before[k] * 1e6:.0f} us at first", family=k[0])
            ctx.obs("costs_after_repetition")
        ctx.sig("live", kind, tuple(names[:4]))

    def cpu(self, fn, reps):
        gc.collect(); gc.disable()
        try:
            best = math.inf
            for _ in range(reps):
                signal.setitimer(signal.ITIMER_VIRTUAL, LONGEST)
                t = time.thread_time(); r = fn(); t = time.thread_time() - t
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                del r
                best = min(best, t)
            return best
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            gc.enable()


def attempt_ir(e, syms):
    try: e.to_llvm_ir(syms)
    except sc.exceptions.LLVMNotImplementedError: pass      # more symbols than arguments


def Sc(e, old, new):
    fn = SubsFunc(e.rep, [old.rep])
    return sc.Expr(fn(new.rep))


def set_of(e):
    return topological_sort(e.rep)


def size(r):
    if isinstance(r, str): return len(r) // 20
    if not isinstance(r, list): return 0
    return units(*r)
