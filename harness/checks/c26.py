"""C26: histories of operations; everything made earlier is read and run again after each."""
import copy, gc, pickle

import protosym.simplecas as sc
from protosym.core.atom import AtomType
from protosym.core.evaluate import Evaluator, Transformer
from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, SymDifferentiator, star
from protosym.core.tree import SubsFunc, Tr, Tree, forward_graph, topological_sort, topological_split

from pv import heap
from pv.core import Violation, check, short
from pv.world import OPS, Norm, World

OPNAMES = [n for n in OPS if n != "compile"]


def spoil(rng, c, junk):
    """Changes a container of the caller, and the containers in it."""
    if isinstance(c, list):
        for x in c:
            if isinstance(x, (list, dict, set)): spoil(rng, x, junk)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, (list, dict, set)): spoil(rng, y, junk)
        k = rng.randrange(5)
        if k == 0: c.clear()
        elif k == 1: c.reverse(); c.append(junk)
        elif k == 2 and c: c[:] = [junk] * len(c)
        elif k == 3: c += [junk] * 3
        elif c: c.pop()
    elif isinstance(c, dict):
        k = rng.randrange(3)
        if k == 0: c.clear()
        elif k == 1:
            for x in c: c[x] = junk
        else: c[junk] = junk
    elif isinstance(c, set):
        if rng.random() < .5: c.clear()
        else: c.add(junk)


class CHECK:
    rule = "different (world, history of operations) pairs"
    plan = {"quick": {"seconds": 8, "min": 6, "case_cpu": 100}, "thorough": {"seconds": 300, "min": 60, "case_cpu": 200}}
    floors = {"cases": 100, "steps": 2500, "snapshots_checked": 30000, "containers_changed": 1500, "copy_attempts": 1000, "arrays_kept": 100, "heap_scans": 50}

    def __init__(self, ctx):
        self.ctx = ctx
        self.n = 0

    def case(self, rng, idx):
        ctx = self.ctx
        self.n += 1
        self.tag = f"q{self.n:06d}"
        self.seed = rng.randrange(10 ** 9)
        self.rng = rng
        self.w = w = World(self.seed, self.tag, size=rng.choice([2, 4, 8]))
        self.snaps = []
        self.history = []
        self.objects = []
        for e in w.E: self.keep("expression", e)
        for m in w.M: self.keep("matrix", m)
        steps = [getattr(self, n) for n in dir(self) if n.startswith("do_")]
        for k in range(26 if ctx.tier == "quick" else 60):
            fn = rng.choice(steps) if rng.random() < .75 else self.do_operation
            self.history.append(fn.__name__[3:])
            fn()
            ctx.obs("steps")
            self.verify(12)
            if rng.random() < .1: self.snaps = [s for s in self.snaps if rng.random() < .8]; gc.collect()
        self.verify(None)
        ctx.sig(self.seed, tuple(self.history))
        if idx % 3 == 0: heap.scan(ctx, "after a history")
        ctx.sample({"history": self.history, "snapshots": len(self.snaps)})

    # -- snapshots -----------------------------------------------------------------------------------------
    def norm(self, r): return Norm(self.tag)(r)

    def keep(self, what, obj):
        """An expression or matrix: structure, text, hash and parts."""
        if isinstance(obj, (sc.Expr, Tree)):
            self.objects.append(obj)
            x = obj if isinstance(obj, sc.Expr) else sc.Expr(obj)
            parts = x.rep.children
            small = x.count_ops_tree() < 400
            probe = lambda: (obj, x.args if x.rep.children else x.rep.value.value, x.count_ops_graph(), repr(x.rep) if small else "")
            h = hash(obj)
            self.add(what, lambda: (self.norm(probe()), hash(obj), hash(x.rep) , x.rep.children is parts or len(x.rep.children), obj == obj, h))
        else:
            self.add(what, lambda: self.norm((obj, obj.shape, obj.nrows, obj.ncols, obj.tolist(), obj.elements_graph)))

    def add(self, what, probe):
        self.snaps.append((f"{what} made at step {len(self.history)}", probe, probe()))

    def verify(self, k):
        for what, probe, want in self.snaps if k is None else self.rng.sample(self.snaps, min(k, len(self.snaps))):
            got = probe()
            if got != want:
                raise Violation(f"{what} has changed after '{self.history[-1]}'", history=self.history, world=self.seed, got=short(got), before=short(want))
            self.ctx.obs("snapshots_checked")

    def call(self, fn, *containers):
        """Calls fn, which must leave the containers alone; then changes them."""
        saved = [self.contents(c) for c in containers]
        r = fn()
        for c, s in zip(containers, saved):
            if self.contents(c) != s: raise Violation(f"'{self.history[-1]}' changes the {type(c).__name__} it is given", history=self.history, world=self.seed)
        self.junk = junk = self.w.S[7] + self.rng.randrange(100)
        for c in containers:
            spoil(self.rng, c, junk)
            self.ctx.obs("containers_changed")
        return r

    def contents(self, c):
        if isinstance(c, list): return [self.contents(x) for x in c]
        if isinstance(c, dict): return [(id(k), self.contents(v)) for k, v in c.items()]
        if isinstance(c, set): return sorted(map(id, c))
        return (type(c).__name__, c) if isinstance(c, (int, float, str)) else id(c)

    def some(self): return self.rng.choice(self.w.E) if self.rng.random() < .7 else self.expr()

    def expr(self):
        o = self.rng.choice(self.objects)
        return o if isinstance(o, sc.Expr) else sc.Expr(o)

    def small(self, e): return e.count_ops_tree() < 2000

    # -- steps -----------------------------------------------------------------------------------------------
    def do_operation(self):
        name, v = self.rng.choice(OPNAMES), self.rng.randrange(4)
        self.history[-1] = name
        go = self.w.op(name, v)
        r = go()
        x = self.norm(r)
        if isinstance(r, sc.Expr) and self.small(r): self.keep(name, r)
        elif isinstance(r, sc.Matrix): self.keep(name, r)
        elif isinstance(r, tuple):
            for y in r:
                if isinstance(y, sc.Expr) and self.rng.random() < .5: self.keep(name, y)
        elif hasattr(r, "dtype"):
            self.add("an array", lambda: self.norm(r)); self.ctx.obs("arrays_kept")
        elif isinstance(r, (list, dict, set)): spoil(self.rng, r, self.w.S[0])
        self.add(f"operation '{name}'", lambda: self.norm(go()))
        if self.snaps[-1][2] != x: raise Violation(f"'{name}' gives something else the second time", history=self.history, world=self.seed)

    def do_subsfunc(self):
        w, rng = self.w, self.rng
        k = rng.randrange(4)
        e, t = w.E[k].rep, [x.rep for x in rng.sample(w.subs_of[k], min(3, len(w.subs_of[k])))]
        n = len(t)
        fn = self.call(lambda: SubsFunc(e, t), t)
        reps = [x.rep for x in w.S[:n]]
        other = [x.rep for x in (w.reps[0] + w.reps[1])[:n]]
        self.add("SubsFunc", lambda: self.norm((fn(*reps), fn(*other))))

    def do_function(self):
        w, rng = self.w, self.rng
        e = self.some()
        params = [w.S[0], 1, w.S[1]]
        fn = self.call(lambda: e.as_function(*params), params)
        args = [w.reps[0][0], 5, w.S[2]]
        self.add("ExprFunction", lambda: self.norm((fn(*args), fn(1, 2, 3))))
        treps = [x.rep for x in w.S[:3]]
        if hasattr(fn, "call"): self.call(lambda: fn.call(treps), treps)

    def do_xreplace(self):
        w = self.w
        e = self.some()
        d = {w.S[0]: w.reps[0][0], w.S[1]: 3, self.rng.choice(w.subs_of[0]): w.reps[1][1]}
        e2 = self.call(lambda: e.xreplace(d), d)
        if self.small(e2): self.keep("replaced", e2)

    def do_matrix(self):
        w, rng = self.w, self.rng
        r, c = rng.randint(1, 3), rng.randint(1, 3)
        rows = [[rng.choice([0, 1, w.S[0], self.some(), w.reps[0][0]]) for _ in range(c)] for _ in range(r)]
        M = self.call(lambda: sc.Matrix(rows), rows)
        self.keep("matrix", M)
        w.M.append(M)
        del w.M[2:-3]

    def do_tolist(self):
        M = self.rng.choice(self.w.M)
        a = M.tolist()
        b = M.tolist()
        check(a == b, "tolist differs from itself")
        spoil(self.rng, a, self.w.S[0]); self.ctx.obs("containers_changed")
        check(M.tolist() == b, "changing what tolist returned changes what it returns next", history=self.history)

    def do_matrix_ops(self):
        w, rng = self.w, self.rng
        A, B = rng.choice(w.M), rng.choice(w.M)
        k = rng.randrange(4)
        if k < 2 and A.shape == B.shape: C = A + B
        elif k == 2 and A.shape == B.shape: C = A.binop(B, rng.choice([sc.Mul, sc.Add, sc.Pow]))
        else:
            try: C = A.diff(w.S[rng.randrange(2)])
            except KeyError: return                # no rule for a function of the world
        if all(self.small(e) for row in C.tolist() for e in row):
            self.keep("matrix", C); w.M.append(C); del w.M[2:-3]

    def do_sympy_matrix(self):
        import sympy
        M = self.w.M[self.rng.randrange(2)]
        S = M.to_sympy()
        try: N = sc.Matrix.from_sympy(S)
        except NotImplementedError: N = None          # a fraction, for example
        if N is not None: self.keep("matrix from SymPy", N)
        self.add("matrix to SymPy", lambda: self.norm(M.to_sympy()))
        if hasattr(S, "__setitem__"):
            S[0, 0] = sympy.Integer(77); S[:, -1] = sympy.zeros(S.rows, 1)
            self.ctx.obs("containers_changed")
        self.verify(None)

    def do_sorts(self):
        w, rng = self.w, self.rng
        e = self.some()
        k = rng.random()
        if k < .5: e = rng.choice([lambda: sc.Function(rng.choice("fgh"))(), lambda: sc.Function("h")(e, sc.g(), sc.f()), lambda: w.S[0], lambda: sc.Integer(rng.randrange(9)), lambda: sc.f])()
        e = e.rep
        ex = {rng.choice(w.subs_of[0]).rep, w.S[0].rep}
        s1 = self.call(lambda: topological_sort(e, exclude=ex, heads=rng.random() < .5), ex)
        before = self.norm((topological_sort(e), topological_split(e), forward_graph(e)))
        ex = {w.S[0].rep}
        s2 = self.call(lambda: topological_split(e, exclude=ex), ex)
        s3, s4 = topological_sort(e), topological_split(e)
        g = forward_graph(e)
        for c in (s1, list(s2), s3, list(s4), g.atoms, g.heads, g.operations): spoil(rng, c, w.S[3].rep); self.ctx.obs("containers_changed")
        check(self.norm((topological_sort(e), topological_split(e), forward_graph(e))) == before, "changing the lists that a sort returned changes later results", history=self.history, world=self.seed)

    def do_eval(self):
        w, rng = self.w, self.rng
        e = w.N[rng.randrange(2)]
        vals = dict(w.values[0])
        def go(vals):
            try: return repr(e.eval_f64(vals))
            except Exception as ex: return type(ex).__name__
        want = self.call(lambda: go(vals), vals)
        check(go(dict(w.values[0])) == want, "eval_f64 differs after the caller changed the dictionary", history=self.history)
        tv = {s.rep: k for k, s in enumerate(w.S)}
        x = self.some().rep
        want = self.call(lambda: w.ev(x, tv), tv)
        tv = {s.rep: k for k, s in enumerate(w.S)}
        check(w.ev(x, tv) == want, "an evaluator differs after the caller changed the dictionary", history=self.history)
        self.add("values of an evaluator", lambda: w.ev(x, tv))
        # the single steps of evaluation, with the dictionary and the list of the caller
        small = next((o for o in (self.some() for _ in range(4)) if self.small(o)), w.S[0]).rep
        for o, fn in ((small, w.ev.eval_recursive), (small, w.ev.evaluate), (x, w.ev.eval_forward)):
            tv2 = {s.rep: k for k, s in enumerate(w.S)}
            self.call(lambda: fn(o, tv2), tv2)
        if x.children:
            L = [w.ev(c, {s.rep: k for k, s in enumerate(w.S)}) for c in x.children[1:]]
            self.call(lambda: w.ev.eval_operation(x.children[0], L), L)

    def do_lambdify(self):
        w, rng = self.w, self.rng
        if rng.random() < .5: return self.do_ir()
        args = list(w.S)
        rng.shuffle(args)
        vals = [w.values[0][s] for s in args]
        e = w.N[rng.randrange(2)] if rng.random() < .5 else sc.Matrix([[w.N[0], 0, 1], [w.S[0], w.N[1], w.S[1]]])
        fn = self.call(lambda: sc.lambdify(args, e), args)
        r = fn(*vals)
        if hasattr(r, "dtype"):
            self.add("an array", lambda: self.norm(r)); self.ctx.obs("arrays_kept")
            r2 = fn(*vals); r2[:] = -1.5
            self.ctx.obs("containers_changed")
        self.add("compiled function", lambda: self.norm(fn(*vals)))
        fn(*[v + 1 for v in vals])

    def do_ir(self):
        w = self.w
        args = list(w.S)
        e = self.rng.choice([w.N[0], w.N[1], sc.Matrix([[w.N[0], w.S[0]]])])
        want = self.call(lambda: e.to_llvm_ir(args), args)
        check(e.to_llvm_ir(list(w.S)) == want, "the code differs after the caller changed the list", history=self.history)

    def do_rules_change_arguments(self):
        """Rules that change the list of arguments they are given."""
        w, rng = self.w, self.rng
        def made(bad):
            def rule(f):
                def go(*a):
                    r = f(*a)
                    if bad and hasattr(a[-1], "append"): spoil(rng, a[-1], "junk"); self.ctx.obs("containers_changed")
                    return r
                return go
            ev = Evaluator()
            ev.add_atom_generic(lambda a: len(str(a)))
            ev.add_opn(sc.Add.rep, rule(lambda a: sum(a) % 10007))
            ev.add_op_generic(rule(lambda h, a: (7 + sum(k * v for k, v in enumerate(a, 2))) % 10007))
            return ev
        e = self.some().rep
        good, bad = made(False), made(True)
        check(good(e) == bad(e) == good(e), "rules that change the list they are given change other results", history=self.history, world=self.seed)
        tr = Transformer()
        def rev(a):
            r = sc.Mul.rep(*a, w.S[0].rep)
            if hasattr(a, "append"): a.append(w.S[1].rep); a.reverse()
            return r
        tr.add_opn(sc.Mul.rep, rev)
        r = tr(e)
        self.keep("transformed", r)
        check(tr(e) is r, "a transformer differs from itself")

    def do_new_rules(self):
        """New evaluators and differentiators with rules of their own; the earlier ones stay as they are."""
        w, rng = self.w, self.rng
        a, b = sc.Expr.new_wild("a"), sc.Expr.new_wild("b")
        f, g, n = sc.Function(w.tag + "f"), sc.Function(w.tag + "g"), sc.Function(w.tag + "n")
        x = w.S[0]
        k = rng.randrange(1, 1000)
        if rng.random() < .5:
            e = self.some()
            se = sc.Expr.new_evaluator("new", int)
            se[AtomRule[a]] = AtomFunc(lambda _: k)(a)
            se[HeadRule(a, b)] = HeadOp(lambda h, s: (k + sum(s)) % 100003)(a, b)
            if rng.random() < .5: se[sc.Integer[a]] = PyFunc1(lambda v: v % 17 + k)(a)
            if rng.random() < .5: se[sc.sin(a)] = PyOp1(lambda v: v + 2)(a)
            if rng.random() < .5: se[sc.Add(star(a))] = PyOpN(lambda s: max(s) - k)(a)
            if rng.random() < .5: se[a ** b] = PyOp2(lambda p, q: (p * k + q) % 100003)(a, b)
            self.add("new evaluator", lambda: se(e))
            tr = Transformer()
            tr.add_opn(sc.Add.rep, lambda s: sc.Mul.rep(*s))
            self.add("new transformer", lambda: self.norm(tr(e.rep)))
        else:
            D = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
            D[sc.sin(a), a] = k * n(a)
            if rng.random() < .7: D[n(a), a] = a + k
            if rng.random() < .5: D[f(a, b), b] = k * b
            if rng.random() < .3: D.add_distributive_rule(g)
            def der(e):
                try: return D(e, x)
                except Exception as ex: return type(ex).__name__
            es = [sc.sin(x), n(x), f(x, x), f(1, x), g(x), sc.cos(x), sc.sin(n(x))]
            self.add("new differentiator", lambda: self.norm([der(e) for e in es]))
        def own(e):
            try: return w.D(e, x)
            except Exception as ex: return type(ex).__name__
        self.add("the first differentiator", lambda: self.norm([own(e) for e in (sc.sin(x), n(x), f(x, x), g(x))]))
        self.add("diff", lambda: self.norm([sc.sin(x).diff(x), sc.cos(x).diff(x), (x ** 3).diff(x)]))

    def do_copy(self):
        """Copies are refused or are the object itself."""
        ctx = self.ctx
        for o in [self.expr(), self.expr().rep, self.rng.choice(self.w.S), self.w.S[0].rep.value, sc.Add, self.some()]:
            for fn in (copy.copy, copy.deepcopy, lambda o: pickle.loads(pickle.dumps(o)), lambda o: copy.copy([o])[0], lambda o: copy.deepcopy({"k": [o]})["k"][0],
                       lambda o: copy.replace(o) if hasattr(copy, "replace") else copy.copy(o)):
                ctx.obs("copy_attempts")
                try: c = fn(o)
                except (TypeError, AttributeError, NotImplementedError, RecursionError, pickle.PicklingError, copy.Error): ctx.obs("copies_refused"); continue
                ctx.obs("copies")
                check(type(c) is type(o) and c == o and hash(c) == hash(o), lambda: f"a copy of {o!r} differs from it: {short(c)}", history=self.history)
                check(self.norm(c.rep if isinstance(c, sc.Expr) else c if isinstance(c, Tree) else repr(c)) == self.norm(o.rep if isinstance(o, sc.Expr) else o if isinstance(o, Tree) else repr(o)), "a copy has another structure", history=self.history)
        M = self.rng.choice(self.w.M)
        for fn in (copy.copy, copy.deepcopy):
            try: c = fn(M)
            except (TypeError, AttributeError, copy.Error): ctx.obs("copies_refused"); continue
            check(self.norm(c) == self.norm(M), "a copy of a matrix differs from it")
        self.verify(None)

    def do_drop(self):
        """Forgets a part; the rest stays."""
        self.snaps = [s for s in self.snaps if self.rng.random() < .7]
        self.objects = [o for o in self.objects if self.rng.random() < .7] or [self.w.E[0]]
        gc.collect()
