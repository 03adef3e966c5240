"""C03: nothing keeps a dropped expression alive."""
import gc, weakref

import protosym.simplecas as sc
from protosym.core.atom import Atom, AtomType
from protosym.core.evaluate import Evaluator, Transformer
from protosym.core.exceptions import NoEvaluationRuleError
from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOpN, Sym, SymDifferentiator, star
from protosym.core.tree import SubsFunc, Tr, Tree, forward_graph, topological_sort, topological_split

from pv import heap
from pv.bridge import Builder
from pv.core import Violation, check
from pv.gen import Gen
from pv.model import Model


class Val:
    __slots__ = ("v", "__weakref__")

    def __init__(self, v): self.v = v
    def __repr__(self): return f"v{self.v}"


class CHECK:
    rule = "different (kind of use, expression) pairs"
    plan = {"quick": {"seconds": 8, "min": 40}, "thorough": {"seconds": 240, "min": 200}}
    floors = {"cases": 200, "watched": 5000, "reclaimed": 5000, "uses": 1000, "growth_rounds": 8, "lambdified": 10, "sympy": 10, "kept": 30, "replaced_rules": 20, "uses_of_atoms": 300}
    evaluations = "watched"

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0
        self.uses = [k for k in dir(self) if k.startswith("use_")]
        # everything imported and every lazily made constant in place
        import protosym.simplecas.sympy_conversions  # noqa: F401
        x = sc.x
        for u in self.uses:
            try: getattr(self, u)(sc.sin(x) + x, [x], ctx.rng(-1))
            except Exception: pass
        gc.collect()

    # -- uses: each gets an Expr with its symbols and drops everything it makes
    def use_nothing(self, e, syms, rng): pass
    def use_arithmetic(self, e, syms, rng): (e + 1) * e / 2 - -e ** 3
    def use_call(self, e, syms, rng): sc.f(e, sc.g(e), 3); e(e)
    def use_print(self, e, syms, rng): 
        repr(e); str(e); repr(e.rep); str(e.rep)
        try: e.eval_latex(); e._repr_latex_()
        except NoEvaluationRuleError: pass
    def use_count(self, e, syms, rng): e.count_ops_graph(); e.count_ops_tree()
    def use_args(self, e, syms, rng):
        if e.args: e.head; e.args[0].rep
    def use_sort(self, e, syms, rng):
        topological_sort(e.rep); topological_sort(e.rep, heads=True, exclude={s.rep for s in syms}); topological_split(e.rep); forward_graph(e.rep)
    def use_expand(self, e, syms, rng): e.bin_expand()
    def use_f64(self, e, syms, rng):
        try: e.eval_f64({s: rng.uniform(.5, 2) for s in syms})
        except (ArithmeticError, ValueError, NoEvaluationRuleError): pass
    def use_f64_missing(self, e, syms, rng):
        try: e.eval_f64({})
        except (ArithmeticError, ValueError, NoEvaluationRuleError): pass
    def use_diff(self, e, syms, rng):
        try: e.diff(syms[0]); e.diff(syms[-1], 2)
        except KeyError: pass
    def use_subs(self, e, syms, rng):
        f = e.as_function(*syms)
        f(*range(len(syms))); f(*[s + 1 for s in syms])
        e.xreplace({syms[0]: e, e: syms[0]})
        SubsFunc(e.rep, [syms[0].rep])(e.rep)
    def use_subs_wrong(self, e, syms, rng):
        try: e.as_function(*syms)()
        except TypeError: pass
    def use_sym_class(self, e, syms, rng):
        class Local(Sym): pass
        Local(e.rep); Sym(e.rep)
    def use_evaluator(self, e, syms, rng):
        ev = sc.Expr.new_evaluator("ev", object)
        a, b = sc.a, sc.b
        ev[AtomRule[a]] = AtomFunc(lambda x: x)(a)
        ev[HeadRule(a, b)] = HeadOp(lambda h, args: (h, tuple(args)))(a, b)
        ev(e); ev(e, {syms[0]: e})
        ev.evaluator.eval_recursive(e.rep, {})
    def use_own_rules(self, e, syms, rng):
        # rules whose patterns mention the expression, on an evaluator that is dropped
        ev = sc.Expr.new_evaluator("ev", object)
        ev[e(sc.a)] = PyOp1(lambda x: x)(sc.a)
        ev[e(star(sc.a))] = PyOpN(lambda x: x)(sc.a)
        d = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
        d[e(sc.a), sc.a] = e(sc.a) * e
        d.add_distributive_rule(syms[0])
        d(e(syms[0]), syms[0])
    def use_bad_rule(self, e, syms, rng):
        for pattern in (e, e(sc.a), sc.Integer[e]):
            try: sc.expr.eval_f64[pattern] = PyOp1(float)(sc.b)
            except Exception: pass
        try: sc.diff[e(sc.a), sc.b] = e
        except TypeError: pass
    def use_transformer(self, e, syms, rng):
        t = Transformer()
        t.add_opn(sc.Add.rep, lambda args: sc.Mul.rep(*args)); t(e.rep); t(e.rep, {syms[0].rep: e.rep})
    def use_matrix(self, e, syms, rng):
        m = sc.Matrix([[e, 0], [syms[0], e]])
        n = m + m.diff(syms[0]) if self.differentiable else m + m
        n.tolist(); repr(n); n[0, 0]; n.elements_graph; m.binop(n, sc.Mul)
    def use_ir(self, e, syms, rng):
        from protosym.simplecas.exceptions import LLVMNotImplementedError
        for s in (syms, syms[:1]):
            try: e.to_llvm_ir(s); sc.Matrix([[e, 0]]).to_llvm_ir(s)
            except LLVMNotImplementedError: pass
    def use_lambdify(self, e, syms, rng):
        if self.ctx.counts.get("lambdified", 0) > 200 or not self.compilable: return
        self.ctx.obs("lambdified")
        f = sc.lambdify(syms, e); f(*[.5] * len(syms))
        g = sc.lambdify(syms, sc.Matrix([[e, 0, syms[0]]])); g(*[.5] * len(syms))
    def use_sympy(self, e, syms, rng):
        if not self.differentiable or e.count_ops_tree() > 200: return
        try: s = e.to_sympy()
        except Exception: return
        self.ctx.obs("sympy")
        try: sc.Expr.from_sympy(s)
        except Exception: pass
        try: m = sc.Matrix([[e, 1]]).to_sympy(); sc.Matrix.from_sympy(m)
        except Exception: pass
    def use_failed(self, e, syms, rng):
        for bad in (1.5, "x", None):
            for fn in (lambda: e + bad, lambda: e(bad), lambda: sc.Matrix([[e], [e, e]]), lambda: Tree(e.rep, bad), lambda: sc.expressify(bad), lambda: e.diff(syms[0] if bad is None else bad)):
                try: fn()
                except Exception: pass
    def use_threads(self, e, syms, rng):
        import threading
        t = threading.Thread(target=lambda: (repr(e), e + 1, e.count_ops_graph())); t.start(); t.join()
    def use_cycle(self, e, syms, rng):
        c = [e]; c.append(c)

    def use(self, u, e, syms, rng):
        try:
            getattr(self, u)(e, syms, rng)
        except Exception:       # another property's business
            self.ctx.obs("uses_that_raised")

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        if idx % 64 < 8 and idx // 64 < 3:
            return self.growth(rng, idx)
        self.n += 1
        if rng.random() < .06: return self.kept(rng, idx)
        if rng.random() < .04: return self.replaced(rng, idx)
        tag = f"{idx}_{self.n}"
        names = [f"s{k}_{tag}" for k in range(rng.randint(1, 3))]
        self.differentiable = rng.random() < .6
        ints = [rng.randrange(10**6, 10**9) for _ in range(3)]
        if self.differentiable:
            g = Gen(m, rng, names=names, nsyms=len(names), ints=ints, ops={"Add": 4, "Mul": 4, "sin": 1, "cos": 1})
        else:
            g = Gen(m, rng, names=names, nsyms=len(names), ints=ints, funs=[f"fn_{tag}", "f"], compound_heads=rng.random() < .3, nullary=True)
        root = g.expr(rng.choice([1, 3, 8, 20])) if rng.random() < .9 else g.chain(rng.choice([100, 400]))
        self.compilable = all(m.headname(n) in ("Add", "Mul", "sin", "cos", "pow") for n in m.post(root) if not m.is_atom(n))
        uses = rng.sample(self.uses, rng.choice([1, 1, 2, 4]))
        watched = self.run_uses(m, rng, root, names, uses)
        ctx.obs("watched", len(watched)); ctx.obs("uses", len(uses))
        alive = [(w, t) for w, t in watched if w() is not None]
        if alive: gc.collect()
        alive = [(w, t) for w, t in alive if w() is not None]
        if alive:
            text = alive[0][1]
            o = alive[0][0]()
            raise Violation(f"{len(alive)} of {len(watched)} dropped objects are still alive after {uses}, e.g. {text}",
                            referrers=[type(r).__name__ + ": " + repr(r)[:200] for r in gc.get_referrers(o) if r is not alive][:5])
        ctx.obs("reclaimed", len(watched))
        for u in uses: ctx.sig(u, m.show(root, 300))
        ctx.sample({"expr": m.show(root, 100), "uses": uses, "watched": len(watched)})

    def run_uses(self, m, rng, root, names, uses):
        build = Builder(m, rng)
        e = build(root)
        syms = [sc.Symbol(n) for n in names]
        tmp = sc.Function(names[0] + "_f")(e, syms[0])
        watched = []
        base = {id(v.rep) for v in vars(sc).values() if isinstance(v, sc.Expr)}
        for x in [tmp, *build.memo.values(), *syms]:
            if id(x.rep) in base: continue
            watched.append((weakref.ref(x), f"Expr {m.show(root, 60)}"))
            watched.append((weakref.ref(x.rep), "Tree of it"))
            if not x.rep.children: watched.append((weakref.ref(x.rep.value), f"Atom {x.rep.value!r}"))
        # an atom kind with values that can be watched themselves
        K = AtomType("K", Val)
        v = Val(1)
        at = K(v); t = Tr(at); e2 = sc.Expr(t)
        watched += [(weakref.ref(v), "value of an atom"), (weakref.ref(at), "its atom"), (weakref.ref(t), "its tree"), (weakref.ref(e2), "its expression")]
        for u in uses: self.use(u, e, syms, rng)
        for u in uses:
            if u in ("use_nothing", "use_print", "use_count", "use_evaluator", "use_arithmetic", "use_call", "use_sort", "use_transformer", "use_subs", "use_failed"): self.use(u, e2 + 1, [e2], rng)
        # single atoms and heads as the whole expression
        if rng.random() < .5:
            self.ctx.obs("uses_of_atoms", len(uses))
            for u in uses:
                self.use(u, syms[-1], syms, rng); self.use(u, e2, [e2], rng)
                if u != "use_lambdify": self.use(u, tmp.head, syms, rng)
        # expressions made on the way
        d = e + e2
        watched += [(weakref.ref(d), "a sum"), (weakref.ref(d.rep), "the tree of a sum")]
        return watched

    def kept(self, rng, idx):
        """The expression and the tools made from it stay; everything computed with them goes."""
        ctx, m = self.ctx, Model()
        names = [f"k{idx}_{j}" for j in range(2)]
        self.differentiable, self.compilable = True, True
        g = Gen(m, rng, names=names, nsyms=2, ints=[10**7 + idx], ops={"Add": 4, "Mul": 4, "sin": 1, "cos": 1})
        root = g.expr(rng.choice([1, 4, 12]))
        build = Builder(m, rng)
        e = build(root)
        syms = [build(s) for s in g.syms]
        fn, raw = e.as_function(*syms), SubsFunc(e.rep, [syms[0].rep])
        mat = sc.Matrix([[e, 0], [syms[0], e]])
        ev, tr = Evaluator(), Transformer()
        ev.add_atom_generic(lambda t: t)
        ev.add_op_generic(lambda h, args: (h, *args))
        tr.add_opn(sc.Add.rep, lambda args: sc.Mul.rep(*args))
        D = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
        D[sc.sin(sc.a), sc.a] = sc.cos(sc.a)
        D[sc.cos(sc.a), sc.a] = sc.sin(sc.a)
        keep = [e, syms, fn, raw, mat, ev, tr, D, [e.args], sc.x]
        def tools():
            n = rng.randrange(10**6, 10**7)
            for k in rng.sample(range(10), rng.choice([1, 3])):
                if k == 0: fn(*[sc.Integer(n) + s for s in syms]); raw(sc.Integer(n).rep)
                elif k == 1: (mat + mat).tolist(); mat.diff(syms[0]); mat.binop(mat, sc.Mul); repr(mat)
                elif k == 2: ev(e.rep, {syms[0].rep: "v"}); ev(e.rep)
                elif k == 3: tr(e.rep); tr(e.rep, {syms[0].rep: sc.Integer(n).rep})
                elif k == 4: D(e, syms[0]); D(e, syms[0], 2)
                elif k == 5: e.diff(syms[0]); e.diff(syms[1], 2); e.diff(sc.x)
                elif k == 6: mat.to_sympy(); e.to_sympy(); sc.Expr.from_sympy(e.to_sympy() + n)
                elif k == 7: e.xreplace({syms[0]: sc.Integer(n)}); e.eval_f64({s: 1.5 for s in syms}); e.eval_latex()
                elif k == 8: e.bin_expand(); mat[0, 0] + n; mat.to_llvm_ir(syms)
                else: hash(e + n); e(n); e == n; [e, n] == [e, e]
        gc.collect()
        before = {id(t) for t in heap.instances()[1]}
        uses = rng.sample([u for u in self.uses if u != "use_lambdify"], 2)
        for u in uses: self.use(u, e, syms, rng)
        try: tools()
        except Exception: ctx.obs("uses_that_raised")
        gc.collect()
        new = [t for t in heap.instances()[1] if id(t) not in before and hasattr(t, "children")]
        if new:
            t = max(new, key=lambda t: len(t.children))
            raise Violation(f"{len(new)} trees computed from a kept expression are still alive after {uses}, e.g. {str(t):.200}",
                            referrers=[type(r).__name__ + ": " + repr(r)[:200] for r in gc.get_referrers(t) if r is not new][:5])
        ctx.obs("kept")
        ctx.sig("kept", m.show(root, 300), tuple(uses))
        del keep

    def replaced(self, rng, idx):
        """A rule that was replaced does not keep its pattern alive."""
        ctx = self.ctx
        a, b = sc.a, sc.b
        f = sc.Function(f"fr{idx}")
        ev = sc.Expr.new_evaluator("ev", object)
        D = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
        refs = []
        class Fn:
            def __call__(self, *args): return 0
        def one_round(k):
            rhs = sc.Function(f"rhs{idx}_{k}")(a, b) * k
            fn = Fn()
            D[f(a, b), a] = rhs
            D[f(a, b), b] = rhs + 1
            ev[f(star(a))] = PyOpN(fn)(a)
            ev[sc.Integer[a]] = PyFunc1(fn)(a)
            ev[HeadRule(a, b)] = HeadOp(fn)(a, b)
            ev[AtomRule[a]] = AtomFunc(fn)(a)
            refs.append([weakref.ref(rhs.rep.children[1].children[0]), weakref.ref(fn)])     # the head is a constant of the rule
            if rng.random() < .5: D(f(sc.x, sc.sin), sc.x); ev(f(1, sc.x))
        n = rng.choice([2, 5])
        for k in range(n): one_round(k)
        gc.collect()
        for k in range(n - 1):
            for r, what in zip(refs[k], ("differentiation rule", "evaluation rule")):
                check(r() is None, f"the pattern or function of a replaced {what} is still alive")
        ctx.obs("replaced_rules")
        ctx.sig("replaced", idx)

    def growth(self, rng, idx):
        """Repeating the same work on fresh expressions does not make the heap grow."""
        def work(k):
            m = Model()
            g = Gen(m, rng, names=[f"q{k}_{j}" for j in range(3)], nsyms=3, ints=[10**7 + 3 * k + j for j in range(3)], ops={"Add": 4, "Mul": 4, "sin": 1, "cos": 1})
            self.differentiable, self.compilable = True, False
            root = g.expr(12)
            build = Builder(m, rng)
            e = build(root)
            for u in rng.sample(self.uses, 5): self.use(u, e, [build(s) for s in g.syms], rng)
        counts = []
        for r in range(4):
            for k in range(30): work(r * 1000 + k)
            gc.collect()
            counts.append([len(x) for x in heap.instances()])
        for what, series in zip(("Atom", "Tree", "Sym"), zip(*counts)):
            check(series[-1] - series[0] < 25, f"live {what} objects grow while identical rounds of work are repeated: {series}")
        self.ctx.obs("growth_rounds", len(counts))
        self.ctx.sig("growth", idx)
