"""C20: very deep expressions under the ordinary recursion limit, compared with iterative oracles."""
import gc, math, sys, threading, weakref

import protosym.simplecas as sc
from protosym.core.evaluate import Evaluator, Transformer
from protosym.core.exceptions import NoEvaluationRuleError
from protosym.core.sym import SymDifferentiator
from protosym.core.tree import SubsFunc, Tree, forward_graph, topological_sort, topological_split

from checks.c10 import mdiff
from pv import field, heap
from pv.bridge import Builder, Reader, same
from pv.core import Violation, check, short
from pv.model import Model


class CHECK:
    rule = "different (shape of nesting, depth, operation) combinations"
    evaluations = "operations"
    plan = {"quick": {"seconds": 11, "min": 4, "case_cpu": 200}, "thorough": {"seconds": 300, "min": 40, "case_cpu": 400}}
    floors = {"cases": 30, "operations": 120, "max_depth": 20000, "levels": 500000, "dropped": 30, "printed": 4, "compiled": 2, "derivatives": 12, "high_orders": 3, "heads_shown": 1}
    assumptions = ["the stack of the main thread is the usual 8 MB", "printed forms are checked up to 3000 levels only, because the text itself grows quadratically"]

    def __init__(self, ctx):
        self.ctx = ctx
        sys.setrecursionlimit(1000)
        self.counter = 0

    SHAPES = ["sin", "first", "last", "middle", "add left", "add right", "mul left", "mul right", "power base", "power exponent", "neg", "sub", "div", "list", "mixed", "doubling",
              "two chains", "fun first", "fun last", "fun only", "wide levels", "heads"]

    def level(self, m, shape, e, k, x, y):
        f, g = m.fun("f"), m.fun("g")
        s = shape
        if s == "mixed": s = self.rng.choice(["sin", "first", "add left", "add right", "mul left", "mul right", "neg", "fun last", "middle"])
        if s == "sin": return m.sin(e) if k % 2 else m.cos(e)
        if s == "first": return m.app(f, e, x, y)
        if s == "last": return m.app(f, x, y, e)
        if s == "middle": return m.app(f, x, e, y)
        if s == "add left": return m.add(e, x)
        if s == "add right": return m.add(x, e)
        if s == "mul left": return m.mul(e, y)
        if s == "mul right": return m.mul(y, e)
        if s == "power base": return m.pow(e, m.int(2))
        if s == "power exponent": return m.pow(x, e)
        if s == "neg": return m.neg(e)
        if s == "sub": return m.sub(x, e)
        if s == "div": return m.div(y, m.add(e, y))
        if s == "list": return m.list(e)
        if s == "doubling": return m.sin(m.mul(e, e))
        if s == "fun first": return m.app(g, e, x)
        if s == "fun last": return m.app(g, x, e)
        if s == "fun only": return m.app(m.fun("u"), e)
        if s == "heads": return m.app(e, *[x, y, m.int(2)][:1 + k % 3]) if k else m.fun("g")
        if s == "wide levels": return m.add(x, y, e, m.int(k % 3), e)
        raise AssertionError(s)

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        self.rng = rng
        shape = self.SHAPES[idx % len(self.SHAPES)]
        # every operation on every shape first, then fewer on deeper ones
        depth = 1500 if idx < len(self.SHAPES) else 25000 if idx < 28 else rng.choice([3000, 8000, 25000])
        if ctx.tier == "thorough" and rng.random() < .2 or idx % 13 == 5 and idx > len(self.SHAPES): depth = 120000
        x, y = m.sym("x"), m.sym("y")
        root = x
        if shape == "two chains":
            a, b = x, y
            for k in range(depth): a, b = m.sin(a), m.cos(b)
            root = m.app(m.fun("f"), a, b, m.add(a, b))
        else:
            for k in range(depth): root = self.level(m, shape, root, k, x, y)
        self.what = f"{shape}, {depth} levels"
        funs = {m.headname(n) for n in m.post(root)} - {None}
        numeric = shape != "heads" and not funs & {"f", "g", "u", "List"}
        ctx.counts["max_depth"] = max(ctx.counts.get("max_depth", 0), depth)
        todo = [self.sorting, self.counting, self.evaluation, self.substitution, self.rewriting]
        if shape not in ("power exponent", "heads"): todo.append(self.derivative)
        if numeric and depth <= 8000: todo.append(self.compilation)
        if shape not in ("doubling", "wide levels", "heads"): todo.append(self.printing)
        if shape == "heads": todo.append(self.heads_shown)
        if numeric and shape not in ("power base", "power exponent", "wide levels", "mul left", "mul right"): todo.append(self.floats)
        if idx % 7 == 3: self.high_order(rng)
        if depth > 50000 and ctx.tier == "quick" and (shape in ("doubling", "wide levels", "two chains") or rng.random() < .7) and self.derivative in todo: todo.remove(self.derivative)
        if depth > 1500 and ctx.tier == "quick": todo = rng.sample(todo, 3 if depth < 50000 else 2)
        gc.collect()
        base = [len(l) for l in heap.instances()]
        build = Builder(m, rng)
        e = build(root)
        for op in todo:
            try: op(m, root, e, build, rng, depth)
            except RecursionError as ex:
                raise Violation(f"{op.__name__}: recursion error for an expression of {self.what}") from ex
            ctx.obs("operations"); ctx.obs("levels", depth)
            ctx.sig(shape, depth, op.__name__)
        # dropping everything
        w = weakref.ref(e.rep)
        leaf = build.memo[x]; wl = weakref.ref(leaf)
        build.memo.clear(); del leaf
        if rng.random() < .3:
            box = [e]; del e
            t = threading.Thread(target=box.clear); t.start(); t.join()
        else: del e
        gc.collect()
        check(w() is None, "a deep expression is not freed when dropped", shape=self.what)
        now = [len(l) for l in heap.instances()]
        check(all(a <= b + 60 for a, b in zip(now, base)), f"after dropping a deep expression {now} objects are left of {base} before it", shape=self.what)
        ctx.obs("dropped")
        ctx.sample({"nesting": shape, "levels": depth, "operations": [t.__name__ for t in todo]})

    def high_order(self, rng):
        """Thousands of differentiations of something small."""
        x, y = sc.Symbol("x"), sc.Symbol("y")
        k = rng.choice([1100, 2000, 3500])
        what = rng.choice(["sum", "product", "constant", "function", "matrix", "List"])
        try:
            if what == "sum": got, want = (x + y).diff(x, k), sc.zero
            elif what == "product": got, want = (x * y).diff(x, k), sc.zero
            elif what == "constant": got, want = sc.sin(y).diff(x, k), sc.zero
            elif what == "List": got, want = sc.diff(sc.List(x, y, x * y), x, k), sc.List(0, 0, 0)
            elif what == "matrix":
                M = sc.Matrix([[x, y], [x * y, 0]])
                for _ in range(k): M = M.diff(x)
                got, want = M.tolist(), [[sc.zero, sc.zero], [sc.zero, sc.zero]]
            else:
                k = 1100
                got, want = sc.cos(x).diff(x, k), None
                c, sn = sc.cos(x), sc.sin(x)      # the value at 0.5: the factors are -1 only
                v = got.eval_f64({x: 0.5})
                w = [math.cos, lambda t: -math.sin(t), lambda t: -math.cos(t), math.sin][k % 4](0.5)
                check(math.isclose(v, w, rel_tol=1e-9), f"the derivative of order {k} of cos(x) has the value {v!r} instead of {w!r}")
        except RecursionError as ex:
            raise Violation(f"recursion error for a derivative of order {k} ({what})") from ex
        if want is not None: check(got == want, f"the derivative of order {k} ({what}) is {short(got, 200)} instead of {short(want, 200)}")
        self.ctx.obs("high_orders")

    def sorting(self, m, root, e, build, rng, depth):
        for heads in (False, True):
            L = topological_sort(e.rep, heads=heads)
            check(len(L) == len(set(L)) == len(m.post(root, heads=heads)) and L[-1] is e.rep, "a deep sort has the wrong length", shape=self.what)
            pos = {t: k for k, t in enumerate(L)}
            for t in L:
                for c in t.children[0 if heads else 1:]: check(pos[c] < pos[t], "a deep sort lists a node before its child", shape=self.what)
        g = forward_graph(e.rep)
        st = list(g.atoms)
        for h, ix in g.operations: st.append(h(*[st[i] for i in ix]))
        check(st[-1] is e.rep, "replaying a deep forward graph gives something else", shape=self.what)
        a, h, n = topological_split(e.rep)
        check(len(a) + len(n) == m.size(root), "a deep split has the wrong length", shape=self.what)

    def counting(self, m, root, e, build, rng, depth):
        check(e.count_ops_graph() == m.size(root), "wrong graph count of a deep expression", shape=self.what)
        check(e.count_ops_tree() == m.tree_count(root), "wrong tree count of a deep expression", shape=self.what)

    def evaluation(self, m, root, e, build, rng, depth):
        ev = Evaluator()
        P = 2**61 - 1
        ev.add_atom_generic(lambda a: hash(str(a.value.value)) % P)
        ev.add_op_generic(lambda h, a: (sum((k + 2) * v for k, v in enumerate(a)) * 31 + len(a)) % P)
        ev.add_op1(sc.sin.rep, lambda a: (a * 7 + 1) % P)
        V = {}
        for n in m.post(root):
            if m.is_atom(n): V[n] = hash(str(m.value(n))) % P
            else:
                a = [V[c] for c in m.args(n)]
                V[n] = (a[0] * 7 + 1) % P if m.headname(n) == "sin" else (sum((k + 2) * v for k, v in enumerate(a)) * 31 + len(a)) % P
        check(ev(e.rep) == V[root], "wrong value of a deep expression", shape=self.what)
        # the no-rule error of something deep is that error
        bad = Evaluator()
        bad.add_atom_generic(lambda a: 1)
        if depth <= 3000 and "doubling" not in self.what and "wide" not in self.what:
            h = e.rep(sc.one.rep)
            for t in (e.rep, h):
                try: bad(t)
                except NoEvaluationRuleError: pass
                else: raise Violation("no error for a missing rule", shape=self.what)

    def floats(self, m, root, e, build, rng, depth):
        vals = {"x": .3, "y": .8}
        V = {}
        try:
            for n in m.post(root):
                k = m.kind(n)
                if k == "Integer": V[n] = float(m.value(n))
                elif k: V[n] = vals[m.value(n)]
                else:
                    a = [V[c] for c in m.args(n)]; h = m.headname(n)
                    V[n] = math.fsum(a) if h == "Add" else math.prod(a) if h == "Mul" else math.pow(*a) if h == "pow" else getattr(math, h)(*a)
        except (OverflowError, ValueError): return
        got = e.eval_f64({sc.Symbol(k): v for k, v in vals.items()})
        check(math.isclose(got, V[root], rel_tol=1e-6, abs_tol=1e-12), f"eval_f64 of a deep expression gives {got!r} instead of {V[root]!r}", shape=self.what)

    def substitution(self, m, root, e, build, rng, depth):
        x, y = m.sym("x"), m.sym("y")
        mid = m.post(root)[len(m.post(root)) // 2]
        for reps in ({x: m.app(m.fun("new"), y)}, {x: y, y: x}, {mid: m.int(5)}, {m.fun("sin"): m.fun("h"), m.fun("Add"): m.fun("a"), x: m.int(1)}):
            fn = SubsFunc(e.rep, [build(t).rep for t in reps])
            for _ in range(2): got = fn(*[build(v).rep for v in reps.values()])
            same(m, Reader(m), got, m.subst(root, reps), "deep substitution", shape=self.what)

    def rewriting(self, m, root, e, build, rng, depth):
        same(m, Reader(m), e.bin_expand(), m.bin_expand(root), "deep bin_expand", shape=self.what)
        t = Transformer()
        check(t(e.rep) is e.rep, "a transformer without rules changes a deep expression", shape=self.what)
        t.add_op1(sc.sin.rep, lambda a: sc.cos.rep(a))
        new = {}
        for n in m.post(root):
            new[n] = n if m.is_atom(n) else m.app(m.fun("cos") if m.headname(n) == "sin" else m.head(n), *[new[c] for c in m.args(n)])
        same(m, Reader(m), t(e.rep), new[root], "deep transformer", shape=self.what)

    def derivative(self, m, root, e, build, rng, depth):
        x = m.sym("x")
        self.counter += 1
        D = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
        rules = {}
        W = [m.atom("Wild", c) for c in "abc"]
        def rule(name, n, k, rhs):
            pat = W[:n]; h = m.fun(name)
            D[build(m.app(h, *pat)), build(pat[k])] = build(rhs)
            rules[h, k] = (pat, rhs)
        a, b, c = W
        rule("sin", 1, 0, m.cos(a)); rule("cos", 1, 0, m.neg(m.sin(a)))
        rule("pow", 2, 0, m.mul(b, m.pow(a, m.add(b, m.int(-1)))))
        rule("u", 1, 0, m.app(m.fun("v"), a))
        for k in range(3): rule("f", 3, k, m.app(m.fun(f"f{k}"), a, b, c))
        for k in range(2): rule("g", 2, k, m.app(m.fun(f"g{k}"), a, b))
        D.add_distributive_rule(sc.List)
        want = mdiff(m, root, x, rules, {m.fun("List")}, "Add", "Mul")
        got = Reader(m)(D(e, build(x)))
        for salt in range(2):
            if field.evaluate(m, got, salt) != field.evaluate(m, want, salt): raise Violation("wrong derivative of a deep expression", shape=self.what)
        heads = {m.headname(n) for n in m.post(root)} - {None}
        if not heads & {"f", "g", "u"}:
            d = Reader(m)(e.diff(build(x)))
            rules[m.fun("sin"), 0] = ([a], m.cos(a))
            w2 = mdiff(m, root, x, rules, {m.fun("List")}, "Add", "Mul")
            vals = [self.real(m, n) for n in (d, w2)]
            check(None in vals or vals[0] == vals[1] or math.isclose(*vals, rel_tol=1e-6, abs_tol=1e-9), f"the derivative of a deep expression has the value {vals[0]!r} instead of {vals[1]!r}", shape=self.what)
        self.ctx.obs("derivatives")

    def real(self, m, root):
        """Float value at a point; None where there is none."""
        V = {}
        try:
            for n in m.post(root):
                k = m.kind(n)
                if k == "Integer": V[n] = float(m.value(n))
                elif k: V[n] = {"x": .3, "y": .8}[m.value(n)]
                else:
                    a = [V[c] for c in m.args(n)]; h = m.headname(n)
                    if h == "List": V[n] = math.fsum(a)
                    else: V[n] = math.fsum(a) if h == "Add" else math.prod(a) if h == "Mul" else math.pow(*a) if h == "pow" else getattr(math, h)(*a)
        except (OverflowError, ValueError, ZeroDivisionError): return None
        return V[root]

    def printing(self, m, root, e, build, rng, depth):
        # a shorter expression of the same shape: the text of all subexpressions is quadratic
        order = [n for n in m.post(root) if not m.is_atom(n)]
        limit = 1300 if any(m.headname(n) == "pow" for n in order) else 3000
        n = order[min(limit, len(order) - 1)]
        t = build(n)
        text = repr(t)
        check(text == str(t), "repr and str differ", shape=self.what)
        self.tokens(m, n, text, {"Add": "+", "Mul": "*", "pow": "**"})
        lat = t.eval_latex()
        self.tokens(m, n, lat, {"Add": "+", "Mul": "\\times", "pow": "^"})
        for s, names in ((str(t.rep), None), (repr(t.rep), None)):
            check(s.count("(") == s.count(")") > 0, "the form of a deep Tree has unbalanced brackets", shape=self.what)
        # undoing levels one by one: the text of a node contains the text of its children in order
        for probe in rng.sample(order[:order.index(n) + 1], 3):
            s = repr(build(probe)); at = 0
            for c in m.args(probe):
                r = repr(build(c)); k = s.find(r, at)
                check(k >= 0, "the text of a deep expression does not contain the text of its argument", shape=self.what, text=s[:200])
                at = k + len(r)
        self.ctx.obs("printed")

    def tokens(self, m, n, text, ops):
        """Every operation occurs in the text as often as it must."""
        want = {}
        mult = {n: 1}
        for i in reversed(m.post(n)):
            for c in m.args(i): mult[c] = mult.get(c, 0) + mult[i]
            h = m.headname(i)
            if h in ops:
                t = ops[h]; k = 1 if h == "pow" else len(m.args(i)) - 1
            elif h: t, k = h + "(", 1
            else: continue
            want[t] = want.get(t, 0) + k * mult[i]
        if "*" in want: text = text.replace("**", "~~"); want["~~"] = want.pop("**", 0)
        for t, k in want.items():
            got = text.count(t)
            check(got == k, f"the text of a deep expression has {got} times {t!r} instead of {k}", shape=self.what)

    def heads_shown(self, m, root, e, build, rng, depth):
        """The forms of a Tree nested in its head."""
        n, want = root, 0
        while not m.is_atom(n) and want < 1000: n, want = m.head(n), want + 1
        name, top = build(n), e.rep
        levels = []
        t = top
        while t is not name.rep and len(levels) < 1000: levels.append(t); t = t.children[0]
        base = sc.Function("base").rep
        short_ = base
        for t in reversed(levels): short_ = Tree(short_, *t.children[1:])
        s, r = str(short_), repr(short_)
        check(s.startswith("base(") and s.count("(") == s.count(")") == len(levels), "the form of a Tree nested in its head is wrong", form=s[:200])
        check(r.startswith("Tree(" * len(levels) + "Tr(Function('base')), Tr(") and r.count("Tree(") == len(levels), "the repr of a Tree nested in its head is wrong", form=r[:200])
        self.ctx.obs("heads_shown")

    def compilation(self, m, root, e, build, rng, depth):
        syms = [sc.Symbol("x"), sc.Symbol("y")]
        ir = e.to_llvm_ir(syms)
        n = sum(not m.is_atom(k) for k in m.post(m.bin_expand(root)))
        got = sum(l.lstrip().startswith("%") for l in ir.splitlines())
        check(got == n, f"the IR of a deep expression has {got} instructions for {n} operations", shape=self.what)
        want = self.real(m, root)
        deep = depth <= 3000
        if deep:
            fs = [(sc.lambdify(syms, e), lambda r: r), (sc.lambdify(syms, sc.Matrix([[e, 1]])), lambda r: r[0, 0])]
            for f, pick in fs:
                got = float(pick(f(.3, .8)))
                check(want is None or math.isclose(got, want, rel_tol=1e-6, abs_tol=1e-9), f"a compiled deep expression gives {got!r} instead of {want!r}", shape=self.what)
            self.ctx.obs("compiled")
