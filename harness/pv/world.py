"""A set of shared objects and a catalogue of operations on them.

World(seed, tag) is a function of the seed; tag is put before every name, so that two worlds of one seed share no
expression with a symbol in it.  Values are compared by Norm(tag), which takes the tag off again.
"""
import hashlib, math, random

import protosym.simplecas as sc
from protosym.core.evaluate import Evaluator, Transformer
from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, SymDifferentiator, star
from protosym.core.tree import ForwardGraph, SubsFunc, Tree, Tr, forward_graph, topological_sort, topological_split

from pv.bridge import Builder
from pv.gen import Gen
from pv.model import Model


class Norm:
    """Nested tuples and digests that depend on structure only."""

    def __init__(self, tag): self.tag, self.memo = tag, {}

    def strip(self, s): return s.replace(self.tag, "") if self.tag else s

    def tree(self, t):
        memo, stack = self.memo, [t]
        while stack:
            n = stack[-1]
            if n in memo: stack.pop(); continue
            todo = [c for c in n.children if c not in memo]
            if todo: stack.extend(todo); continue
            key = "|".join(memo[c] for c in n.children) if n.children else f"{n.value.atom_type.name}:{type(n.value.value).__name__}:{self.strip(repr(n.value.value))}"
            memo[n] = hashlib.blake2b(key.encode("utf8", "surrogatepass"), digest_size=9).hexdigest()
            stack.pop()
        return memo[t]

    def __call__(self, r):
        if isinstance(r, sc.Expr): return ("Expr", self.tree(r.rep))
        if isinstance(r, Tree): return ("Tree", self.tree(r))
        if isinstance(r, str): return self.strip(r)
        if isinstance(r, (float, complex)): return ("number", repr(r))
        if r is None or isinstance(r, (int, bool)): return (type(r).__name__, r)
        if isinstance(r, (list, tuple)): return (type(r).__name__, *map(self, r))
        if isinstance(r, (set, frozenset)): return ("set", *sorted(map(self, r), key=repr))
        if isinstance(r, dict): return ("dict", *sorted(((self(k), self(v)) for k, v in r.items()), key=repr))
        if isinstance(r, sc.Matrix): return ("Matrix", r.shape, *[tuple(self(r[i, j]) for j in range(r.ncols)) for i in range(r.nrows)])
        if isinstance(r, ForwardGraph): return ("graph", self(r.atoms), self(r.heads), self(r.operations))
        if isinstance(r, BaseException): return ("raised", type(r).__name__)
        if hasattr(r, "dtype"): return ("array", r.shape, *map(repr, r.ravel().tolist()))
        import sympy
        return ("sympy", self.strip(sympy.srepr(r, order='none')))


class Fault(Exception):
    """Put into an operation on purpose."""


DEPTH = 1100
NAMES = ["x", "y", "z", "t", "u", "v", "w", "alpha"]
OPS = {}
DEEP = {}        # operations on expressions nested deeper than the recursion limit and exponentially large as trees


def op(name, slow=False):
    def deco(fn):
        OPS[name] = fn
        fn.slow = slow
        return fn
    return deco


def deep(name):
    def deco(fn):
        DEEP[name] = fn
        fn.slow = False
        return fn
    return deco


class lazy:
    def __init__(self, fn): self.fn = fn
    def __set_name__(self, owner, name): self.name = name
    def __get__(self, w, owner):
        if w is None: return self
        v = w.__dict__[self.name] = self.fn(w)
        return v


class World:
    def __init__(self, seed, tag, size=None):
        self.seed, self.tag = seed, tag
        self.tick = lambda: None                 # called by every rule
        rng = random.Random(f"world {seed}")
        m = self.m = Model()
        n = size or rng.choice([2, 4, 7, 12, 18])
        kw = dict(names=[tag + s for s in NAMES], ints=[0, 1, -1, 2, 3, -5, 10 ** 20], nsyms=rng.choice([2, 3, 5]), tame=True, max_arity=rng.choice([2, 3, 5]))
        gn = Gen(m, rng, ops={"Add": 4, "Mul": 4, "pow": 2, "sin": 2, "cos": 2, "neg": 1}, **kw)
        gs = Gen(m, rng, ops={"Add": 3, "Mul": 3, "pow": 2, "sin": 2, "cos": 1, "fun": 3}, funs=(tag + "f", tag + "g"), **kw)
        self.num = [self.shrink(gn, n) for _ in range(2)]
        self.sym = [self.shrink(gs, n) for _ in range(2)]
        if rng.random() < .5: self.sym[1] = m.list(self.sym[1], self.sym[0], self.num[0])
        self.g = gn
        self.build = Builder(m, random.Random(f"build {seed}"))
        self.names = [tag + s for s in NAMES]

    def shrink(self, g, n):
        """Not so large as a tree that printing it takes long."""
        while True:
            e = g.expr(n)
            if self.m.tree_count(e) < 600 and self.digits(e) < 3000: return e
            n = max(1, n // 2)

    def digits(self, e):
        """A bound for the bits of numbers that SymPy may compute on the way."""
        m, bits = self.m, {}
        for i in m.post(e):
            if m.is_atom(i): bits[i] = m.value(i).bit_length() + 1 if m.kind(i) == "Integer" else 1
            else:
                a = [bits[c] for c in m.args(i)] or [1]
                if m.headname(i) == "pow": bits[i] = a[0] * (2 ** min(a[1], 40) if m.kind(m.args(i)[1]) in ("Integer", None) else 4)
                else: bits[i] = sum(a)
        return max(bits.values())

    def rng(self, *a): return random.Random(f"{self.seed} {a}")

    @lazy
    def E(self): return [self.build(e) for e in (*self.num, *self.sym)]
    @lazy
    def N(self): return [self.build(e) for e in self.num]
    @lazy
    def subs_of(self): return [[self.build(k) for k in self.m.post(e)] for e in (*self.num, *self.sym)]
    @lazy
    def S(self): return [sc.Symbol(s) for s in self.names]
    @lazy
    def values(self):
        r = self.rng("values")
        return [{s: r.uniform(-1.5, 1.5) for s in self.S} for _ in range(2)]
    @lazy
    def ev(self):
        """An evaluator to numbers modulo a prime, with rules that call tick()."""
        ev = Evaluator()
        def rule(fn):
            def go(*a):
                self.tick()
                return fn(*a)
            return go
        ev.add_atom(sc.Integer.atom_type, rule(lambda n: n % 1009))
        ev.add_atom_generic(rule(lambda a: len(str(a.value.value)) + 3))
        ev.add_op1(sc.sin.rep, rule(lambda a: a * 7 + 1))
        ev.add_op2(sc.Pow.rep, rule(lambda a, b: a * 31 + b * 17))
        ev.add_opn(sc.Add.rep, rule(lambda a: sum(a) % 10007))
        ev.add_opn(sc.Mul.rep, rule(lambda a: math.prod(v + 1 for v in a) % 10007))
        ev.add_op_generic(rule(lambda h, a: (len(str(h)) + sum(k * v for k, v in enumerate(a, 2))) % 10007))
        return ev
    @lazy
    def tr(self):
        tr = Transformer()
        def rule(fn):
            def go(*a):
                self.tick()
                return fn(*a)
            return go
        tr.add_opn(sc.Mul.rep, rule(lambda a: sc.Mul.rep(*reversed(a))))
        tr.add_op1(sc.sin.rep, rule(lambda a: sc.cos.rep(a, a)))
        tr.add_atom(sc.Integer.atom_type, rule(lambda n: Tr(sc.Integer.atom_type(n + 1))))
        return tr
    @lazy
    def sev(self):
        """A SymEvaluator to text."""
        a, b = sc.Expr.new_wild("a"), sc.Expr.new_wild("b")
        se = sc.Expr.new_evaluator("text", str)
        def rule(fn):
            def go(*a):
                self.tick()
                return fn(*a)
            return go
        se[sc.Integer[a]] = PyFunc1(rule(str))(a)
        se[AtomRule[a]] = AtomFunc(rule(str))(a)
        se[sc.sin(a)] = PyOp1(rule(lambda s: f"S<{s}>"))(a)
        se[a ** b] = PyOp2(rule(lambda s, t: f"P<{s},{t}>"))(a, b)
        se[sc.Add(star(a))] = PyOpN(rule(lambda s: f"A<{','.join(s)}>"))(a)
        se[HeadRule(a, b)] = HeadOp(rule(lambda h, s: f"{h}<{','.join(s)}>"))(a, b)
        return se
    @lazy
    def D(self):
        a, b = sc.Expr.new_wild("a"), sc.Expr.new_wild("b")
        f, g = sc.Function(self.tag + "f"), sc.Function(self.tag + "g")
        D = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
        D[f(a, b), a] = g(b) * f(a, a)
        D[f(a, b), b] = a + f(b, a)
        D[g(a), a] = sc.cos(a)
        D[sc.sin(a), a] = sc.cos(a)
        D[sc.cos(a), a] = g(sc.sin(a))
        D[a ** b, a] = b * a ** (b + (-1))
        D[a ** b, b] = f(a, b)
        D.add_distributive_rule(sc.List)
        return D
    @lazy
    def SF(self):
        """Substitution functions for two positions in each expression."""
        out = []
        for k, (e, subs) in enumerate(zip(self.E, self.subs_of)):
            t = self.rng("targets", k).sample(subs, min(2, len(subs)))
            out.append((SubsFunc(e.rep, [x.rep for x in t]), e.as_function(*t), t))
        return out
    @lazy
    def reps(self):
        r = self.rng("reps")
        return [[self.build(self.g.atom() if r.random() < .5 else self.num[k]) for _ in range(2)] for k in range(2)]
    @lazy
    def M(self):
        r = self.rng("matrix")
        pool = [*self.N, *self.subs_of[0], 0, 0, 1, 2]
        return [sc.Matrix([[r.choice(pool) for _ in range(3)] for _ in range(2)]) for _ in range(2)]
    @lazy
    def sympy_E(self):
        import sympy
        with sympy.evaluate(False): return [e.to_sympy() for e in self.E]
    @lazy
    def sympy_M(self): return [m.to_sympy() for m in self.M[:2]]
    @lazy
    def compiled(self):
        return [sc.lambdify(self.S, e) for e in self.N] + [sc.lambdify(self.S, m) for m in self.M[:2]]

    @lazy
    def deep(self):
        """(sum with sharing, chain of calls, chain of powers and sums)"""
        x, y = self.S[0], self.S[1]
        e, c, p, f = x, x, x, sc.Function(self.tag + "f")
        for k in range(DEPTH):
            e = sc.sin(e) + e if k % 3 else sc.cos(e * y) + e
            c = sc.sin(c) if k % 2 else c + k
            p = f(p, y) if k % 2 else sc.Add(p, y, p)
        return e, c, p

    def op(self, name, v):
        """The function to run; an error (no rule for something, say) is a result too, but a Fault is raised."""
        fn = (OPS.get(name) or DEEP[name])(self, v)
        def go():
            try: return fn()
            except Fault: raise
            except Exception as e: return e.with_traceback(None)
        return go


def pick(v): return v % 4


# Each takes the world and a variant (0..3) and returns the function to run; arguments are made beforehand.
@op("evaluator")
def _(w, v): ev, e, vals = w.ev, w.E[pick(v)].rep, ({} if v % 2 else {s.rep: 5 + k for k, s in enumerate(w.S)}); return lambda: ev(e, vals)
@op("evaluator recursive")
def _(w, v): ev, e = w.ev, w.E[pick(v)].rep; return lambda: ev.eval_recursive(e, {})
@op("transformer")
def _(w, v): tr, e = w.tr, w.E[pick(v)].rep; return lambda: tr(e)
@op("sym evaluator")
def _(w, v): se, e = w.sev, w.E[pick(v)]; vals = {w.S[0]: "V", w.S[1]: "W"} if v % 2 else None; return lambda: se(e, vals)
@op("eval_f64")
def _(w, v):
    e, vals = w.N[v % 2], w.values[v // 2]
    return lambda: e.eval_f64(vals)
@op("repr")
def _(w, v): e = w.E[pick(v)]; return lambda: repr(e)
@op("latex")
def _(w, v): e = w.E[pick(v)]; return lambda: e.eval_latex()
@op("tree text")
def _(w, v): e = w.E[pick(v)].rep; return lambda: (repr(e), str(e))
@op("counts")
def _(w, v): e = w.E[pick(v)]; return lambda: (e.count_ops_graph(), e.count_ops_tree())
@op("bin_expand")
def _(w, v): e = w.E[pick(v)]; return lambda: e.bin_expand()
@op("sort")
def _(w, v): e = w.E[pick(v)].rep; return lambda: topological_sort(e)
@op("sort heads exclude")
def _(w, v): e, x = w.E[pick(v)].rep, {s.rep for s in w.subs_of[pick(v)][:3]}; return lambda: topological_sort(e, heads=True, exclude=x)
@op("split")
def _(w, v): e = w.E[pick(v)].rep; return lambda: topological_split(e)
@op("graph")
def _(w, v): e = w.E[pick(v)].rep; return lambda: forward_graph(e)
@op("subs call")
def _(w, v):
    sf, _, t = w.SF[v % 2]; r = [x.rep for x in w.reps[v // 2]][:len(t)]
    return lambda: sf(*r)
@op("function call")
def _(w, v):
    _, fn, t = w.SF[2 + v % 2]; r = w.reps[v // 2][:len(t)]
    return lambda: fn(*r)
@op("subs build and call")
def _(w, v):
    e, t = w.E[pick(v)].rep, [x.rep for x in w.SF[pick(v)][2]]
    r = [x.rep for x in w.reps[v % 2]][:len(t)]
    return lambda: SubsFunc(e, t)(*r)
@op("xreplace")
def _(w, v):
    e, d = w.E[pick(v)], dict(zip(w.SF[pick(v)][2], w.reps[v // 2]))
    return lambda: e.xreplace(d)
@op("diff")
def _(w, v): e, s = w.N[v % 2], w.S[v // 2]; return lambda: e.diff(s)
@op("diff twice")
def _(w, v): e, s = w.build(w.g.m.children(w.num[v % 2])[-1] if not w.m.is_atom(w.num[v % 2]) else w.num[v % 2]), w.S[v // 2]; return lambda: e.diff(s, 2)
@op("user diff")
def _(w, v):
    D, x = w.D, w.S[v % 2]
    f, g = sc.Function(w.tag + "f"), sc.Function(w.tag + "g")
    e = f(x, g(w.S[0])) * sc.sin(f(w.S[1], x)) + g(g(x)) if v < 2 else sc.List(f(x, x), g(x) ** 2, x)
    return lambda: D(e, x)
@op("build")
def _(w, v):
    x, y = w.S[v % 2], w.E[pick(v)]
    return lambda: (x + y, y * 2 - x, -y, 3 / y, y ** x, sc.sin(y)(x), 2 ** y, sc.Add(x, 1, y), y.head if y.rep.children else y, y.args if y.rep.children else ())
@op("make new")
def _(w, v):
    k = f"{w.tag}new{v}"
    return lambda: (sc.Symbol(k) + sc.Integer(10 ** 6 + v), sc.Function(k)(sc.Symbol(k), 1), sc.Expr.new_wild(k))
@op("matrix make")
def _(w, v): rows = w.M[v % 2].tolist(); return lambda: sc.Matrix(rows)
@op("matrix add")
def _(w, v): a, b = w.M[v % 2], w.M[v // 2]; return lambda: a + b
@op("matrix mul")
def _(w, v): a, b = w.M[v % 2], w.M[v // 2]; return lambda: a.binop(b, sc.Mul)
@op("matrix diff")
def _(w, v): a, s = w.M[v % 2], w.S[v // 2]; return lambda: a.diff(s)
@op("matrix text")
def _(w, v): a = w.M[v % 2]; return lambda: (repr(a), a.tolist(), a[0, 0], a[1, 2])
@op("ir")
def _(w, v): e, s = w.N[v % 2], w.S[:: -1 if v // 2 else 1]; return lambda: e.to_llvm_ir(s)
@op("matrix ir")
def _(w, v): a, s = w.M[v % 2], w.S[:: -1 if v // 2 else 1]; return lambda: a.to_llvm_ir(s)
@op("to sympy", slow=True)
def _(w, v): e = w.E[pick(v)]; return lambda: e.to_sympy()
@op("from sympy", slow=True)
def _(w, v): e = w.sympy_E[pick(v)]; return lambda: sc.Expr.from_sympy(e)
@op("matrix to sympy", slow=True)
def _(w, v): a = w.M[v % 2]; return lambda: a.to_sympy()
@op("matrix from sympy", slow=True)
def _(w, v): a = w.sympy_M[v % 2]; return lambda: sc.Matrix.from_sympy(a)
@op("compiled call", slow=True)
def _(w, v): fn, vals = w.compiled[v // 2], list(w.values[v % 2].values()); return lambda: fn(*vals)
@op("compiled matrix call", slow=True)
def _(w, v): fn, vals = w.compiled[2 + v // 2], list(w.values[v % 2].values()); return lambda: fn(*vals)
@op("compile", slow=True)
def _(w, v):
    e, s, vals = (w.N[v % 2], w.M[v % 2])[v // 2], w.S[:3] + w.S[3:], list(w.values[v % 2].values())
    return lambda: sc.lambdify(s, e)(*vals)
@op("new evaluator")
def _(w, v):
    e = w.E[pick(v)]
    a, b = sc.Expr.new_wild("a"), sc.Expr.new_wild("b")
    def go():
        se = sc.Expr.new_evaluator("sizes", int)
        se[AtomRule[a]] = AtomFunc(lambda _: 1)(a)
        se[HeadRule(a, b)] = HeadOp(lambda h, s: 1 + v + sum(s))(a, b)
        se[sc.cos(a)] = PyOp1(lambda s: s + 100)(a)
        se[sc.Mul(star(a))] = PyOpN(lambda s: max(s) + v)(a)
        return se(e)
    return go
@op("new differentiator")
def _(w, v):
    a = sc.Expr.new_wild("a")
    x, g = w.S[v % 2], sc.Function(f"{w.tag}g{v}")
    e = g(g(x)) * x + g(w.S[1])
    def go():
        D = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
        D[g(a), a] = a + v
        return D(e, x, 2) if v < 2 else D(e, x)
    return go


@deep("deep evaluator")
def _(w, v): ev, e = w.ev, w.deep[0 if v % 2 else 2].rep; return lambda: ev(e, {w.S[0].rep: 3, w.S[1].rep: 4}) % 100003
@deep("deep transformer")
def _(w, v): tr, e = w.tr, w.deep[0].rep; return lambda: tr(e)
@deep("deep sym evaluator")
def _(w, v): se, e = w.sev, w.deep[1]; return lambda: se(e, {w.S[0]: "V"})
@deep("deep eval_f64")
def _(w, v): e = w.deep[1]; return lambda: e.eval_f64({w.S[0]: .5})
@deep("deep text")
def _(w, v): e = w.deep[1]; return lambda: (repr(e), e.eval_latex()) if v % 2 else (repr(e.rep), str(e.rep))
@deep("deep counts")
def _(w, v): e = w.deep[0]; return lambda: (e.count_ops_graph(), e.count_ops_tree())
@deep("deep bin_expand")
def _(w, v): e = w.deep[2]; return lambda: e.bin_expand()
@deep("deep sort")
def _(w, v): e = w.deep[2].rep; return lambda: topological_sort(e, heads=v % 2 == 1)
@deep("deep subs")
def _(w, v):
    e, t = w.deep[0], [w.S[0], w.S[1]]
    return lambda: (e.as_function(*t)(w.S[2], w.N[0]), SubsFunc(e.rep, [w.S[0].rep])(w.S[3].rep))
@deep("deep diff")
def _(w, v): e = w.deep[v % 2]; return lambda: e.diff(w.S[0])
@deep("deep user diff")
def _(w, v): D, e = w.D, w.deep[2]; return lambda: D(e, w.S[v % 2])
@deep("deep matrix")
def _(w, v): M = sc.Matrix([[w.deep[0], 0], [w.deep[1], 1]]); return lambda: (M.diff(w.S[0]), (M + M)[0, 0])
@deep("deep ir")
def _(w, v): e = w.deep[1]; return lambda: e.to_llvm_ir(w.S)
