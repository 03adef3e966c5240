"""C16: conversions to and from SymPy against independently built SymPy objects and high-precision values."""
import warnings

import mpmath
import protosym.simplecas as sc
import sympy
from sympy.core.function import AppliedUndef

from pv import churn, field, lookalike, mats
from pv.bridge import Builder, Reader
from pv.core import Violation, check, short
from pv.gen import Gen, size
from pv.model import Model

warnings.simplefilter("ignore")
mp = mpmath.MPContext(); mp.dps = 150
NAMES = ["x", "y", "z", "t", "u", "v", "alpha", "x1", "theta_0", "X", "lambda", "I", "pi", "E", "f", "w'", "a b", "oo", "S", "beta",
         "12", "-3", "0", "1/2", "sin", "Add", "x**2", "x + y", "2*x", "f(x)", "zoo", "nan", "True", "None", "Symbol('x')", "x.y", "_", "\u03b1", "Q", "N", "x "]
FUNS = ["f", "g", "tan", "Max", "exp", "h1", "Derivative", "Tuple"]


KNOWN = ["Add", "Mul", "pow", "sin", "cos", "List"]


class Nope(Exception):
    """No real value here."""


def pseudo(name, args):
    """Value of an undefined function: a fixed smooth function of its arguments, different for each argument position."""
    acc = mp.mpf(field.h(name, len(args)) % 1000) / 500
    for k, a in enumerate(args):
        acc += mp.sin(a * (1 + mp.mpf(field.h(name, len(args), k) % 997) / 1000) + k)
    return acc + 2


def power(b, e):
    if e == mp.floor(e):
        if abs(e) > 10**6: raise Nope
        if b == 0 and e < 0: raise Nope
        return b ** int(e)
    if b <= 0 or abs(e) > 10**6: raise Nope
    return mp.power(b, e)


def combine(op, args):
    """Value and magnitude; the magnitude bounds what can cancel."""
    vs = [a[0] for a in args]; M = max([mp.mpf(1)] + [a[1] for a in args])
    if op == "Add": v = mp.fsum(vs)
    elif op == "Mul": v = mp.fprod(vs)
    elif op == "pow": v = power(*vs)
    elif op == "sin": v = mp.sin(vs[0])
    elif op == "cos": v = mp.cos(vs[0])
    else: v = pseudo(op, vs)
    M = max(M, abs(v), 1 / abs(v) if op == "pow" and v else 0)
    if M > mp.mpf(10) ** 12: raise Nope      # too much could cancel at 150 digits
    return v, M


def model_value(m, root, env):
    V = {}
    for i in m.post(root):
        k = m.kind(i)
        if k == "Integer": V[i] = (mp.mpf(m.value(i)), max(mp.mpf(1), abs(mp.mpf(m.value(i)))))
        elif k == "Symbol": V[i] = (env[m.value(i)], mp.mpf(1))
        elif m.headname(i) == "List": V[i] = ("List", [V[c] for c in m.args(i)])
        else: V[i] = combine(m.headname(i), [V[c] for c in m.args(i)])
    return V[root]


def sympy_value(s, env, memo):
    if s in memo: return memo[s]
    if isinstance(s, sympy.Integer): r = (mp.mpf(int(s)), max(mp.mpf(1), abs(mp.mpf(int(s)))))
    elif isinstance(s, sympy.Rational): r = (mp.mpf(s.p) / s.q, max(mp.mpf(1), mp.mpf(abs(s.p))))
    elif isinstance(s, sympy.Symbol): r = (env[s.name], mp.mpf(1))
    elif isinstance(s, sympy.Tuple): r = ("List", [sympy_value(a, env, memo) for a in s.args])
    else:
        args = [sympy_value(a, env, memo) for a in s.args]
        if s.is_Add: op = "Add"
        elif s.is_Mul: op = "Mul"
        elif s.is_Pow: op = "pow"
        elif isinstance(s, sympy.sin): op = "sin"
        elif isinstance(s, sympy.cos): op = "cos"
        elif isinstance(s, AppliedUndef): op = s.func.__name__
        else: raise Nope
        r = combine(op, args)
    memo[s] = r
    return r


def close(a, b):
    if (a[0] == "List") != (b[0] == "List"): return False
    if a[0] == "List": return len(a[1]) == len(b[1]) and all(map(close, a[1], b[1]))
    return abs(a[0] - b[0]) <= mp.mpf(10) ** -25 * max(a[1], b[1])


def reference(m, root):
    """The SymPy object for a model node, built bottom-up."""
    R = {}
    for i in m.post(root):
        k = m.kind(i)
        if k == "Integer": R[i] = sympy.Integer(m.value(i))
        elif k == "Symbol": R[i] = sympy.Symbol(m.value(i))
        else:
            n, args = m.headname(i), [R[c] for c in m.args(i)]
            F = {"Add": sympy.Add, "Mul": sympy.Mul, "pow": sympy.Pow, "sin": sympy.sin, "cos": sympy.cos, "List": sympy.Tuple}.get(n) or sympy.Function(n)
            R[i] = F(*args)
    return R[root]


def to_model(m, s, memo):
    """Structure of a SymPy object; None when it has unsupported pieces."""
    if s in memo: return memo[s]
    r = None
    if isinstance(s, sympy.Integer): r = m.int(int(s))
    elif type(s) is sympy.Symbol: r = m.sym(s.name)
    elif s.args or isinstance(s, (sympy.Tuple, AppliedUndef)):
        args = [to_model(m, a, memo) for a in s.args]
        if None not in args:
            if type(s) is sympy.Add: r = m.add(*args)
            elif type(s) is sympy.Mul: r = m.mul(*args)
            elif type(s) is sympy.Pow: r = m.pow(*args)
            elif type(s) is sympy.sin: r = m.sin(*args)
            elif type(s) is sympy.cos: r = m.cos(*args)
            elif isinstance(s, sympy.Tuple): r = m.list(*args)
            elif isinstance(s, AppliedUndef) and s.func.__name__ not in KNOWN: r = m.app(m.fun(s.func.__name__), *args)
    memo[s] = r
    return r


def canon(m, root):
    """Ignores the order of the terms of sums and products."""
    new = {}
    for i in m.post(root):
        if m.is_atom(i): new[i] = i
        else:
            args = [new[c] for c in m.args(i)]
            if m.headname(i) in ("Add", "Mul"): args.sort()
            new[i] = m.app(m.head(i), *args)
    return new[root]


def small_numbers(m, root):
    """Are the integers SymPy computes with of a reasonable size?"""
    B = {}
    for i in m.post(root):
        k = m.kind(i)
        if k == "Integer": B[i] = m.value(i).bit_length() + 1
        elif k: B[i] = 1
        else:
            args = [B[c] for c in m.args(i)]; n = m.headname(i)
            if n == "Add": B[i] = max(args, default=1) + len(args)
            elif n == "Mul": B[i] = sum(args)
            elif n == "pow":
                e = m.args(i)[1]
                B[i] = args[0] * (abs(m.value(e)) + 1 if m.kind(e) == "Integer" else 2 ** min(args[1], 64))
            else: B[i] = max(args, default=1)
        if B[i] > 3000: return False
    return True


class CHECK:
    rule = "structurally different converted objects"
    evaluations = "to_sympy+from_sympy+matrices_to+matrices_from"
    plan = {"quick": {"seconds": 9, "min": 20}, "thorough": {"seconds": 300, "min": 150}}
    floors = {"made_and_dropped": 60, "cases": 100, "to_sympy": 300, "from_sympy": 300, "round_trips": 300, "values_compared": 200, "matrices_to": 60, "matrices_from": 60,
              "unsupported_raised": 600, "undefined_functions": 100, "big_integers": 20, "unevaluated": 60, "sympified": 60}

    def __init__(self, ctx):
        self.ctx = ctx
        X, Y = sympy.Symbol("x"), sympy.Symbol("y")
        F = sympy.Function("f")
        A, B = sympy.MatrixSymbol("A", 2, 2), sympy.MatrixSymbol("B", 2, 2)
        self.scalars = [sympy.pi, sympy.E, sympy.I, sympy.Rational(1, 2), sympy.Float(1.5), sympy.Float(2.0), sympy.tan(X), sympy.exp(X), sympy.log(X), sympy.Abs(X), sympy.Derivative(F(X), X),
                        sympy.Integral(X, X), sympy.Piecewise((X, X > 0), (Y, True)), sympy.nan, sympy.zoo, sympy.oo, -sympy.oo, sympy.Sum(X, (X, 1, 3)), sympy.Max(X, Y),
                        sympy.sqrt(X), sympy.Rational(-7, 3), sympy.exp(2), sympy.sinh(X), sympy.asin(X), sympy.sec(X), sympy.factorial(X), sympy.gamma(X),
                        sympy.Mod(X, Y), sympy.floor(X), sympy.conjugate(sympy.Symbol("c")), sympy.re(sympy.Symbol("c")), sympy.UnevaluatedExpr(X), sympy.Subs(F(X).diff(X), X, 1),
                        sympy.atan2(X, Y), sympy.csc(X), sympy.cosh(X), sympy.sinc(X), sympy.GoldenRatio, sympy.EulerGamma, sympy.Heaviside(X), sympy.sign(X), sympy.cbrt(X)]
        self.scalars += [sympy.Function(n)(X) for n in KNOWN] + [sympy.Function(n)(X, Y) for n in KNOWN] + [sympy.Function(n)() for n in KNOWN]
        self.others = [sympy.Eq(X, Y), sympy.true, sympy.false, sympy.Lambda(X, X), A, A + B, A * B, sympy.FiniteSet(X), sympy.Interval(0, 1), X < Y, sympy.Dict({X: Y}), sympy.Not(X > Y),
                       sympy.ImmutableMatrix([[X]]), sympy.S.EmptySet, sympy.And(X > 0, Y > 0), sympy.MatMul(2, A), sympy.Range(3)]

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        if rng.random() < 0.015: churn.run(self.ctx, rng, "C16", 4)
        if idx < 64: self.assumptions(rng)
        names = rng.sample(NAMES, 6)
        g = Gen(m, rng, names=names, ints=[0, 1, -1, 2, -2, 3, 5, 7] if rng.random() < .8 else [0, 1, -3, 2**63, -2**64 - 1, 10**30],
                funs=rng.sample(FUNS, 3), tame=True, nullary=rng.random() < .2, max_arity=rng.choice([2, 3, 5]), unary_ac=rng.random() < .2,
                ops={"Add": 4, "Mul": 4, "pow": 3, "sin": 2, "cos": 2, "fun": 3, "neg": 1, "sub": 1})
        build, read = Builder(m, rng), Reader(m)
        for _ in range(3):
            root = g.expr(rng.choice([0, 1, 2, 3, 5, 8, 12]))
            if rng.random() < .25: root = m.list(*[g.expr(rng.choice([0, 2, 4])) for _ in range(rng.choice([0, 1, 2, 4]) if rng.random() < .95 else size(rng, 5, 300))])
            if m.tree_count(root) > 1200: continue
            if not small_numbers(m, root): continue
            try: ref = reference(m, root)
            except RecursionError: raise
            except Exception: continue      # SymPy has no such object
            e = build(root)
            s = e.to_sympy()
            ctx.obs("to_sympy")
            self.accept(m, root, s, ref, rng)
            self.roundtrip(m, s, rng, read)
            if rng.random() < .3: check(e.to_sympy() == s, "converting twice gives different objects", expr=m.show(root))
            if rng.random() < .3:
                # SymPy converts by itself what it is given
                check(sympy.sympify(e) == s and sympy.Tuple(e, 2, e) == sympy.Tuple(s, 2, s), "sympify gives another object than to_sympy", expr=m.show(root))
                if isinstance(s, sympy.Expr): check(sympy.sin(e) == sympy.sin(s) and sympy.Symbol("k") * e == sympy.Symbol("k") * s, "a SymPy function or operator gives another object for the expression", expr=m.show(root))
                ctx.obs("sympified")
            ctx.sig(m.show(root, 1000))
            ctx.sample({"expr": m.show(root, 120), "sympy": short(s, 120)})
        # a SymPy expression made by SymPy
        t = self.sympy_object(rng, names)
        self.roundtrip(m, t, rng, read)
        if rng.random() < .5: self.matrices(m, rng, g, build, read)
        self.unsupported(rng, t, m, build(g.syms[0]))

    def accept(self, m, root, s, ref, rng):
        ctx = self.ctx
        d = dict(expr=lambda: m.show(root), got=lambda: short(s), want=lambda: short(ref))
        syms = {m.value(n) for n in m.post(root) if m.kind(n) == "Symbol"}
        check(isinstance(s, sympy.Basic), "to_sympy gives something else than a SymPy object", **d)
        check(all(type(a) is sympy.Symbol and a == sympy.Symbol(a.name) and a.name in syms for a in s.atoms(sympy.Symbol)), "to_sympy gives other symbols", **d)
        heads = {m.headname(n) for n in m.post(root)} - {None}
        undef = {a.func for a in s.atoms(AppliedUndef)}
        check(all(f == sympy.Function(f.__name__) and f.__name__ in heads for f in undef), "to_sympy gives other functions", **d)
        if undef: ctx.obs("undefined_functions")
        if any(abs(int(i)) > 2**62 for i in s.atoms(sympy.Integer)): ctx.obs("big_integers")
        env = {n: mp.mpf(rng.uniform(.3, 2)) for n in syms}
        if s != ref or rng.random() < .5:
            try:
                a = model_value(m, root, env)
                b = sympy_value(s, env, {})
            except (Nope, ZeroDivisionError, OverflowError): pass
            else:
                check(close(a, b), "to_sympy changes the value", **d)
                ctx.obs("values_compared")

    def roundtrip(self, m, s, rng, read):
        """from_sympy(s) has the structure of s, and s comes back when SymPy itself rebuilds it from its pieces."""
        ctx = self.ctx
        if sum(1 for _ in zip(sympy.preorder_traversal(s), range(2000))) >= 2000: return
        want = to_model(m, s, {})
        if want is None:
            if type(s) is type: return
            self.must_raise(lambda: sc.Expr.from_sympy(s), s)
            return
        e = sc.Expr.from_sympy(s)
        ctx.obs("from_sympy")
        check(type(e) is sc.Expr, "from_sympy does not give an Expr", sympy=short(s))
        got = read(e)
        if canon(m, got) != canon(m, want): raise Violation(f"from_sympy gives {m.show(got)} instead of {m.show(want)}", sympy=short(s))
        if not small_numbers(m, want): return
        try: again = reference(m, want)
        except Exception: return
        if again != s: return       # SymPy rewrites this object itself
        back = e.to_sympy()
        check(back == s and type(back) is type(s), "a SymPy object does not survive the round trip", sympy=short(s), back=lambda: short(back), srepr=lambda: sympy.srepr(s)[:500])
        check(sc.Expr.from_sympy(back) is e or canon(m, read(sc.Expr.from_sympy(back))) == canon(m, got), "the second conversion differs from the first", sympy=short(s))
        ctx.obs("round_trips")

    def sympy_object(self, rng, names):
        S = [sympy.Symbol(n) for n in names] + [sympy.Integer(rng.choice([0, 1, -1, 2, 3, -5, 12, 10**20]))]
        fs = [sympy.Function(f) for f in rng.sample(FUNS, 3)]
        pool = list(S)
        for _ in range(rng.choice([1, 2, 4, 8, 12])):
            p = lambda: pool[-1 - min(int(rng.expovariate(.5)), len(pool) - 1)] if rng.random() < .6 else rng.choice(pool)
            k = rng.random()
            try:
                if rng.random() < .12:
                    t = rng.choice([lambda: sympy.Pow(p() + rng.choice(S[:-1]), p(), evaluate=False), lambda: sympy.Pow(rng.choice(S[:-1]) ** p(), rng.choice([2, -1, 3, 0, 1]), evaluate=False), lambda: (rng.choice(S[:-1]) ** rng.choice([2, 4, -2])) ** p(),
                                    lambda: sympy.Mul(*[p() for _ in range(rng.choice([1, 2, 3, 4]))], evaluate=False), lambda: sympy.Add(*[p() for _ in range(rng.choice([1, 2, 3, 4]))], evaluate=False),
                                    lambda: sympy.Mul(p(), 1, evaluate=False), lambda: sympy.Add(0, p(), evaluate=False), lambda: sympy.Mul(0, p(), evaluate=False), lambda: sympy.Mul(-1, p() + p(), evaluate=False),
                                    lambda: sympy.sin(-p(), evaluate=False), lambda: sympy.cos(sympy.Integer(0), evaluate=False), lambda: sympy.Mul(p(), sympy.Pow(p(), -1, evaluate=False), evaluate=False),
                                    lambda: sympy.Mul(sympy.Mul(p(), p(), evaluate=False), p(), evaluate=False), lambda: sympy.Add(p(), sympy.Add(p(), p(), evaluate=False), evaluate=False)])()
                    self.ctx.obs("unevaluated")
                elif k < .25: t = p() + p() + (p() if rng.random() < .3 else 0)
                elif k < .5: t = p() * p()
                elif k < .62: t = p() ** rng.choice([2, 3, -1, -2, 5])
                elif k < .68: t = rng.choice(S[:-1]) ** p()
                elif k < .76: t = rng.choice([sympy.sin, sympy.cos])(p())
                elif k < .84: t = p() / p() if rng.random() < .5 else p() - p()
                else: t = rng.choice(fs)(*[p() for _ in range(rng.choice([0, 1, 1, 2, 3]))])
            except Exception: continue
            if t.has(sympy.zoo, sympy.nan) or t.count_ops() > 60 or any(abs(i.p) > 10**60 for i in t.atoms(sympy.Rational)): continue
            # SymPy would compute such a power once it multiplies it
            if any(w.exp.is_Integer and abs(int(w.exp)) > 300 and not w.base.is_Symbol for w in t.atoms(sympy.Pow)): continue
            pool.append(t)
        t = pool[-1]
        k = rng.random()
        if k < .15: t = sympy.Tuple(*rng.sample(pool, min(len(pool), rng.choice([0, 1, 3]))))
        elif k < .2: t = sympy.Tuple(t, sympy.Tuple(*pool[:2]), sympy.Tuple())
        elif k < .25: t = sympy.Add(t, pool[0], pool[0], evaluate=False)
        elif k < .3: t = sympy.Mul(t, pool[0], 2, evaluate=False)
        return t

    def matrices(self, m, rng, g, build, read):
        ctx = self.ctx
        shp = mats.shape(rng, big=rng.random() < .3)
        nodes = mats.dense_nodes(m, rng, g, shp, rng.choice([0, .3, .6, 1]), rng.choice([0, 2, 4]))
        flat = [n for r in nodes for n in r]
        if sum(m.tree_count(n) for n in flat) > 1500: return
        if not all(small_numbers(m, n) for n in flat): return
        try: refs = {n: reference(m, n) for n in set(flat)}
        except Exception: return
        M = mats.construct(m, rng, build, nodes)
        S = M.to_sympy()
        check(isinstance(S, sympy.MatrixBase) and S.shape == shp, "to_sympy of a matrix gives another shape", got=short(S))
        for i in range(shp[0]):
            for j in range(shp[1]): self.accept(m, nodes[i][j], S[i, j], refs[nodes[i][j]], rng)
        ctx.obs("matrices_to")
        if M.tolist() != [[build(n) for n in r] for r in nodes]: raise Violation("to_sympy changed the matrix")
        back = rng.choice([sympy.Matrix, sympy.ImmutableMatrix, sympy.SparseMatrix, sympy.ImmutableSparseMatrix])(S)
        want = [[to_model(m, back[i, j], {}) for j in range(shp[1])] for i in range(shp[0])]
        if any(w is None for r in want for w in r):
            self.must_raise(lambda: sc.Matrix.from_sympy(back), back)
            return
        N = sc.Matrix.from_sympy(back)
        check(type(N) is sc.Matrix and N.shape == shp, lambda: f"from_sympy of a matrix gives shape {N.shape} instead of {shp}")
        for i in range(shp[0]):
            for j in range(shp[1]):
                got = read(N[i, j])
                if canon(m, got) != canon(m, want[i][j]): raise Violation(f"from_sympy: entry ({i}, {j}) is {m.show(got)} instead of {m.show(want[i][j])}", matrix=short(back))
        try: stable = all(reference(m, want[i][j]) == back[i, j] for i in range(shp[0]) for j in range(shp[1]))
        except Exception: stable = False
        if stable:
            T = N.to_sympy()
            check(T.shape == shp and all(T[i, j] == back[i, j] for i in range(shp[0]) for j in range(shp[1])), "a SymPy matrix does not survive the round trip", matrix=short(back))
        ctx.obs("matrices_from")
        ctx.sig("matrix", shp, tuple(m.show(n, 100) for n in flat))
        # an unsupported entry somewhere
        L = back.tolist(); L[rng.randrange(shp[0])][rng.randrange(shp[1])] += rng.choice(self.scalars[:8])
        bad = sympy.Matrix(L)
        if bad.has(*self.scalars[:8]): self.must_raise(lambda: sc.Matrix.from_sympy(bad), bad)

    def must_raise(self, go, what):
        try: r = go()
        except Exception: self.ctx.obs("unsupported_raised"); return
        raise Violation(f"an unsupported object was converted to {short(r, 150)}", object=short(what))

    def unsupported(self, rng, t, m, sym):
        X, Y = sympy.Symbol("x"), sympy.Symbol("y")
        for u in rng.sample(self.scalars, 8):
            k = rng.randrange(9)
            if not isinstance(t, sympy.Expr): t = X
            s = [lambda: u, lambda: u + X, lambda: u * Y, lambda: sympy.sin(u, evaluate=False), lambda: sympy.Function("f")(X, u), lambda: X ** u,
                 lambda: sympy.Tuple(X, sympy.Tuple(u)), lambda: t + u, lambda: sympy.cos(t * u, evaluate=False)][k]()
            if to_model(m, s, {}) is not None: continue      # SymPy simplified it away
            self.must_raise(lambda: sc.Expr.from_sympy(s), s)
        for u in rng.sample(self.others, 3):
            self.must_raise(lambda: sc.Expr.from_sympy(u if rng.random() < .5 else sympy.Tuple(X, u)), u)
        F = sc.Function("f")
        x = sc.Symbol("x")
        for e in rng.sample([sc.a, sc.sin(sc.a), sc.Expr.new_wild("q") + x, F(x)(x), x(x), sc.Integer(3)(x), sc.List(F(x, x)(sym, 1)), sc.sin(sym(x)), F(F(F)(x))], 4) + [lookalike.call(rng, [x, sc.one]), x + lookalike.call(rng, [x, sc.one])]:
            self.must_raise(lambda: e.to_sympy(), e)

    def assumptions(self, rng):
        """Recorded finding: SymPy symbols that differ only in their assumptions."""
        X = sympy.Symbol("x")
        u = [sympy.Dummy("x"), sympy.Symbol("x", positive=True), sympy.Wild("x"), sympy.Function("x", real=True)(X)][rng.randrange(4)]
        s = rng.choice([u, u + X, sympy.sin(u), sympy.Tuple(X, u)])
        try: e = sc.Expr.from_sympy(s)
        except Exception: return
        if e.to_sympy() == s: return
        self.ctx.finding("from-sympy-drops-assumptions", f"from_sympy converts {sympy.srepr(s)} to {short(e)}, which is another object")
