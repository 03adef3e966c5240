"""A fixed program drawn from a seed; every result is recorded as (label, digest).  Run as a script by C21.

usage: program.py SEED COUNT NOISE     (prints one line per program: index, then label=digest pairs)
"""
import gc, hashlib, os, random, sys

if __name__ == "__main__": sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import load

load.install()
import protosym.simplecas as sc
from protosym.core.evaluate import Evaluator, Transformer
from protosym.core.sym import SymDifferentiator
from protosym.core.tree import SubsFunc, Tree, forward_graph, topological_sort, topological_split

from pv.bridge import Builder
from pv.gen import Gen
from pv.model import Model

NAMES = ["x", "y", "z", "t", "u", "v", "w", "alpha", "x1", "x2", "a", "b", "lambda_", "X", "theta"]


def digest(*parts):
    return hashlib.blake2b("\0".join(parts).encode(), digest_size=8).hexdigest()


class Structure:
    """Digests of trees that depend on their structure only."""

    def __init__(self): self.memo = {}

    def __call__(self, t):
        if isinstance(t, sc.Expr): t = t.rep
        stack = [t]
        while stack:
            n = stack[-1]
            if n in self.memo: stack.pop(); continue
            todo = [c for c in n.children if c not in self.memo]
            if todo: stack.extend(todo); continue
            self.memo[n] = digest(*[self.memo[c] for c in n.children]) if n.children else digest("atom", n.value.atom_type.name, repr(n.value.value))
            stack.pop()
        return self.memo[t]


def program(seed, log):
    rng = random.Random(seed)
    m = Model()
    S = Structure()
    numeric = rng.random() < .5
    sympies = seed // 1000 % 4 == 0       # importing SymPy takes long
    g = Gen(m, rng, names=NAMES, ints=[0, 1, -1, 2, 3, -5, 10**25], max_arity=rng.choice([2, 4, 8]), tame=True, nsyms=rng.choice([1, 3, 6, 12]),
            ops={"Add": 4, "Mul": 4, "pow": 2, "sin": 2, "cos": 2, "neg": 1, **({} if numeric else {"fun": 3, "list": 1})})
    roots = [g.expr(rng.choice([1, 4, 10, 20])) for _ in range(3)]
    if rng.random() < .1: roots.append(g.doubling(12))
    if rng.random() < .2: roots.append(m.app(m.fun("Add"), *[g.expr(1) for _ in range(25)]))
    syms = sorted({m.value(n) for r in roots for n in m.post(r) if m.kind(n) == "Symbol"} | {"x", "y"})
    build = Builder(m, random.Random(seed + 1))
    for k, r in enumerate(roots):
        yield
        e = build(r)
        def out(label, *parts): log.append((f"{k}.{label}", digest(*map(str, parts))))
        def attempt(label, fn):
            try: out(label, fn())
            except Exception as ex: out(label, type(ex).__name__)
        out("structure", S(e))
        out("sort", *[S(t) for t in topological_sort(e.rep)])
        out("sort heads", *[S(t) for t in topological_sort(e.rep, heads=True)])
        inner = m.post(r)
        ex = {build(n).rep for n in rng.sample(inner, min(3, len(inner)))}
        out("sort exclude", *[S(t) for t in topological_sort(e.rep, heads=rng.random() < .5, exclude=ex)])
        a, h, n = topological_split(e.rep)
        out("split", *[S(t) for t in a], "|", *[S(t) for t in n], "|", *sorted(S(t) for t in h))
        fg = forward_graph(e.rep)
        out("graph", *[S(t) for t in fg.atoms], *[f"{S(f)} {ix}" for f, ix in fg.operations])
        yield
        small = m.tree_count(r) < 3000
        if small:
            out("repr", repr(e)); out("latex", e.eval_latex()); out("tree", str(e.rep), repr(e.rep))
        out("counts", e.count_ops_graph(), e.count_ops_tree())
        out("expanded", S(e.bin_expand()))
        calls = []
        ev = Evaluator()
        ev.add_atom_generic(lambda a: (calls.append(S(a)), 1)[1])
        ev.add_op_generic(lambda h, a: (calls.append(S(h)), sum(a) % 1000003 + 1)[1])
        out("evaluator", ev(e.rep), *calls)
        tr = Transformer()
        tr.add_op1(sc.sin.rep, lambda a: sc.cos.rep(a, a))
        tr.add_opn(sc.Mul.rep, lambda a: sc.Mul.rep(*reversed(a)))
        out("transformed", S(tr(e.rep)))
        yield
        targets = [build(n).rep for n in rng.sample(inner, min(rng.choice([1, 2, 4]), len(inner)))]
        reps = [build(g.expr(2)).rep for _ in targets]
        fn = SubsFunc(e.rep, targets)
        out("subs", S(fn(*reps)))
        out("subs dict", S(e.xreplace({sc.Expr(a): sc.Expr(b) for a, b in zip(targets, reps)})))
        v = sc.Symbol(rng.choice(syms))
        for order in (1, 2):
            if order == 2 and m.size(r) > 25: break
            attempt(f"diff {order}", lambda: S(e.diff(v, order)))
            if m.tree_count(r) < 60: attempt(f"diff text {order}", lambda: repr(e.diff(v, order)))
        if not numeric:
            D = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
            D[sc.f(sc.a, sc.b), sc.a] = sc.f(sc.b) * sc.sin(sc.a)
            D[sc.f(sc.a, sc.b), sc.b] = sc.a + sc.f(sc.a, sc.a)
            D[sc.sin(sc.a), sc.a] = sc.cos(sc.a)
            u = sc.sin(sc.f(v, sc.sin(v) + v) + v)
            out("user diff", S(D(u, v, 1)), repr(D(u, v)))
        yield
        vals = {sc.Symbol(s): rng.uniform(-2, 2) for s in syms}
        attempt("f64", lambda: repr(e.eval_f64(vals)))
        order = list(vals); rng.shuffle(order)
        attempt("ir", lambda: e.to_llvm_ir(order))
        others = [build(n) for n in rng.sample(inner, min(4, len(inner)))]
        M = sc.Matrix([[e, 0, others[0]], [others[-1], e, 1], [0, 0, others[len(others) // 2]]])
        attempt("matrix ir", lambda: M.to_llvm_ir(order))
        if small: out("matrix text", repr(M))
        attempt("matrix diff", lambda: "".join(S(x) for row in M.diff(v).tolist() for x in row))
        out("matrix sum", *[S(x) for row in (M + M).tolist() for x in row])
        out("matrix entries", *[S(x) for x in M.elements], sorted(M.entrymap.items()), S(M.elements_graph))
        other = sc.Matrix([[0, e, v], [e, 0, e], [others[0], 1, others[-1]]])
        def table(X): return [[S(x) for x in row] for row in X.tolist()], X.shape
        for label, make in (("diff", lambda: M.diff(v)), ("sum", lambda: M + other), ("product", lambda: M.binop(other, sc.Mul)), ("from list", lambda: sc.Matrix(other.tolist())), ("from sympy", lambda: sc.Matrix.from_sympy(M.to_sympy()))):
            if label == "from sympy" and not (sympies and m.tree_count(r) < 200 and small_numbers(m, r)): continue
            try: X = make()
            except Exception as ex: out(f"matrix {label}", type(ex).__name__); continue
            out(f"matrix {label}", table(X), S(X.elements_graph), repr(X) if small and m.tree_count(r) < 300 else "")
            attempt(f"matrix {label} ir", lambda: X.to_llvm_ir(order))
        if sympies and m.tree_count(r) < 200 and small_numbers(m, r):
            try: s = e.to_sympy()
            except Exception as ex: out("sympy", type(ex).__name__)
            else:
                attempt("sympy", lambda: walk(s))
                attempt("from sympy", lambda: S(sc.Expr.from_sympy(s)))
                attempt("from sympy text", lambda: repr(sc.Expr.from_sympy(s)))
            # Sums and products of many different things, as SymPy sorts them and as they come back.
            some = [build(n) for n in rng.sample(inner, min(3, len(inner)))] + [sc.Symbol(s) for s in rng.sample(NAMES, 4)]
            for label, w in (("sum", sc.Add(*some, sc.sin(sc.x), 3)), ("product", sc.Mul(*some, sc.cos(sc.y), sc.f(1))), ("call", sc.f(*some, sc.Add(*some[::-1])))):
                attempt(f"sympy {label}", lambda: walk(w.to_sympy()))
                attempt(f"from sympy {label}", lambda: S(sc.Expr.from_sympy(w.to_sympy())))
        if numeric and rng.random() < .15:
            attempt("compiled", lambda: repr(sc.lambdify(order, e)(*[vals[s] for s in order])))


def small_numbers(m, root):
    """No integers that SymPy would compute with for long."""
    bits = {}
    for i in m.post(root):
        if m.is_atom(i): bits[i] = m.value(i).bit_length() + 1 if m.kind(i) == "Integer" else 1
        else:
            a = [bits[c] for c in m.args(i)] or [1]
            if m.headname(i) == "pow": bits[i] = a[0] * (2 ** min(a[1], 40) if m.kind(m.args(i)[1]) in ("Integer", None) else 4)
            else: bits[i] = sum(a)
        if bits[i] > 2000: return False
    return True


def walk(s):
    """The structure of a SymPy expression, without SymPy's printing (which reorders terms and rejects sums of tuples)."""
    return f"{type(s).__name__}({','.join(map(walk, s.args))})" if s.args else str(s)


class Noise:
    """Earlier and concurrent work, allocations and collections that must not matter."""

    def __init__(self, rng): self.rng, self.keep = rng, []

    def make(self):
        rng, m = self.rng, Model()
        g = Gen(m, rng, names=NAMES, compound_heads=True, nullary=True, ops={"Add": 1, "Mul": 1, "pow": 1, "sin": 1, "fun": 2})
        e = Builder(m, rng)(g.expr(rng.choice([2, 10, 30])))
        k = rng.randrange(6)
        try:
            if k == 0: e.diff(sc.Symbol(rng.choice(NAMES)))
            elif k == 1: repr(e)
            elif k == 2: e.bin_expand()
            elif k == 3: e.to_llvm_ir([sc.Symbol(s) for s in rng.sample(NAMES, 3)])
            elif k == 4: e.xreplace({sc.Symbol("x"): e})
            else: e.eval_f64({sc.Symbol(s): 1.5 for s in NAMES})
        except Exception: pass
        return e

    def __call__(self):
        rng = self.rng
        for _ in range(rng.choice([0, 1, 3])):
            k = rng.random()
            if k < .5: self.keep.append(self.make())
            elif k < .7: self.keep.append([object() for _ in range(rng.randrange(300))])
            elif k < .85: rng.shuffle(self.keep); del self.keep[:len(self.keep) // 2]
            elif k < .95: self.keep += [sc.Symbol(s) for s in rng.sample(NAMES, 4)]
            else: gc.collect()
        if rng.random() < .05: (gc.disable if rng.random() < .5 else gc.enable)()


def main():
    seed, count, noise = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3])
    nrng = random.Random(f"noise {noise}")
    order = list(range(count))
    N = Noise(nrng) if noise else (lambda: None)
    if noise:
        nrng.shuffle(order)
        for _ in range(nrng.randrange(20)): N()
    if noise == 2: gc.disable()
    for i in order:
        log = []
        for _ in program(seed * 1000 + i, log): N()
        print(i, *[f"{l.replace(' ', '_')}={d}" for l, d in log])


if __name__ == "__main__": main()
