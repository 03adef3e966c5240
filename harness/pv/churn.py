"""Results for expressions that are made and dropped one at a time, compared with those for the same expressions all alive at once.

Anything remembered by address or in a slot outlives the expression it was made for; with many expressions of one shape
made and dropped in turn, addresses are used again at once."""
import random

import protosym.simplecas as sc
from protosym.core.evaluate import Evaluator
from protosym.core.sym import SymDifferentiator
from protosym.core.tree import SubsFunc, forward_graph, topological_sort, topological_split

from .core import Violation


def template(rng):
    """make(k): an expression of one fixed shape with the number k in it."""
    seed, n = rng.randrange(10**9), rng.choice([1, 2, 3, 5, 8, 12, 30])

    def make(k):
        r = random.Random(seed)
        pool = [sc.x, sc.y, sc.Integer(1000 + k), sc.Integer(2)]
        e = sc.x * (1000 + k)
        for _ in range(n):
            o = r.choice(pool)
            t = r.randrange(7)
            e = (e + o if t == 0 else o * e if t == 1 else sc.sin(e) if t == 2 else sc.cos(e) if t == 3 else e ** r.choice([2, 3]) if t == 4
                 else sc.Add(o, e, 1000 + k, *[o] * r.choice([0, 1, 6])) if t == 5 else sc.Mul(o, e, o, 1000 + k))
            if r.random() < .4: pool.append(e)
        return e
    return make


def matrix(make):
    def mat(k): return sc.Matrix([[make(k), sc.zero, make(k + 7)], [sc.x, sc.Integer(k), sc.sin(make(k))]] if k % 2 else [[k + 1, sc.x, k + 5]])
    return mat


def text(r):
    """The result as text or numbers only."""
    if isinstance(r, sc.Expr): return repr(r.rep)
    if isinstance(r, sc.Matrix): return (r.shape, [[repr(e.rep) for e in row] for row in r.tolist()])
    if isinstance(r, (list, tuple)): return [text(a) for a in r]
    if isinstance(r, (set, frozenset)): return sorted(str(text(a)) for a in r)
    if isinstance(r, dict): return {str(text(a)): text(b) for a, b in r.items()}
    if type(r).__name__ == "ForwardGraph": return [text(r.atoms), text(r.heads), text(r.operations)]
    if type(r).__name__ == "ndarray": return repr(r.tolist())
    return repr(r)


def _texts():
    ev = Evaluator()
    ev.add_atom_generic(lambda a: repr(a))
    ev.add_op_generic(lambda h, args: f"{h!r}<{';'.join(args)}>")
    return ev


EV = _texts()
V = {sc.x: .25, sc.y: .5}


def _value(e, values=V):
    try: return e.eval_f64(values)
    except (OverflowError, ValueError) as ex: return type(ex).__name__


def _calls(e):
    f = sc.lambdify([sc.x, sc.y], e)
    r = f(.25, .5)
    return [text(r), text(f(.5, .25)), text(f(.25, .5))]


def _sympy_and_back(e):
    s = e.to_sympy()
    return [repr(s), sc.Expr.from_sympy(s) if isinstance(e, sc.Expr) else sc.Matrix.from_sympy(s)]


def _udiff(e):
    F = sc.Function("churned")

    d = SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
    d[F(sc.a, sc.b), sc.a] = sc.b + sc.a * e
    d[F(sc.a, sc.b), sc.b] = sc.Function("two")(sc.a, e)
    return [d(F(sc.x, sc.x), sc.x), d(F(sc.y, sc.x) + sc.x, sc.x)]


def _rep(op): return lambda e: op(e.rep)


X, Y = sc.x, sc.y
OPS = {     # property: [(what, operations, on a matrix)]
    "C04": [("reading it back", [lambda e: e.head, lambda e: e.args, lambda e: -e, lambda e: e + 1, lambda e: 2 - e, lambda e: sc.f(e, e), lambda e: e ** e], 0)],
    "C05": [("sorts", [_rep(topological_sort), lambda e: topological_sort(e.rep, heads=True), _rep(topological_split), _rep(forward_graph),
                       lambda e: topological_sort(e.rep, exclude={e.rep.children[1]})], 0)],
    "C06": [("evaluation", [_rep(EV), lambda e: EV.eval_recursive(e.rep, {}), lambda e: EV(e.rep, {X.rep: "X"}), lambda e: EV(e.rep, {X.rep: str(e)[:20]})], 0)],
    "C08": [("substitution", [lambda e: e.xreplace({X: Y}), lambda e: e.xreplace({e.args[0]: X}), lambda e: e.as_function(X)(5), lambda e: X.as_function(X)(e), lambda e: sc.sin(X).xreplace({X: e}),
                              lambda e: SubsFunc(e.rep, [Y.rep, X.rep])(sc.f.rep, Y.rep), lambda e: sc.f(X, e, e.args[0]).xreplace({e: Y})], 0)],
    "C09": [("derivatives", [lambda e: e.diff(X), lambda e: e.diff(Y), lambda e: e.diff(X, 2) if e.count_ops_graph() < 15 else None, lambda e: sc.diff(e, X)], 0)],
    "C10": [("rules made of it", [_udiff], 0)],
    "C11": [("value", [_value, lambda e: _value(sc.Mul(0, e, 1), {X: .01, Y: .02}), lambda e: _value(sc.sin(X), {X: .5, e: 3.0})], 0)],
    "C12": [("compiled values", [_calls, lambda e: sc.lambdify([X, Y], e)(.25, .5)], 0)],
    "C13": [("compiled values", [_calls, lambda M: sc.lambdify([X, Y], M)(.25, .5)], 1)],
    "C15": [("IR", [lambda e: e.to_llvm_ir([X, Y]), lambda e: e.to_llvm_ir([Y, X])], 0), ("IR", [lambda M: M.to_llvm_ir([X, Y])], 1)],
    "C16": [("conversion", [_sympy_and_back, lambda e: repr(e.to_sympy())], 0), ("conversion", [_sympy_and_back, lambda e: repr(e.to_sympy())], 1)],
    "C17": [("printing", [str, repr, lambda e: e.eval_latex(), lambda e: e._repr_latex_(), lambda e: repr(e.rep), lambda e: str(e.rep)], 0)],
    "C18": [("matrix operations", [lambda M: M, lambda M: M.tolist(), lambda M: M + M, lambda M: M.diff(X), lambda M: [M[0, 0], M[M.nrows - 1, 2]], repr, lambda M: M.binop(M, sc.Mul), lambda M: M.shape], 1)],
    "C22": [("expansion", [lambda e: e.bin_expand(), lambda e: sc.bin_expand(e.rep)], 0)],
    "C23": [("counts", [lambda e: e.count_ops_graph(), lambda e: e.count_ops_tree()], 0)],
}


def result(ops, e):
    return [text(op(e)) for op in ops]


def run(ctx, rng, prop, n=10):
    what, ops, onmatrix = rng.choice(OPS[prop])
    if rng.random() < .7: ops = [rng.choice(ops)]
    make = template(rng)
    if onmatrix: make = matrix(make)
    ks = list(range(rng.randrange(50), 1000))[:n]
    if prop == "C23":       # a number in it does not change the count, so the size does
        made, ks = make, ks
        make = lambda k: made(k) if k % 3 else made(k) + sc.sin(made(k)) if k % 2 else sc.f(made(k), *[made(k + i) for i in range(k % 7)])
    alive = [make(k) for k in ks]
    want = [result(ops, e) for e in alive]
    alive.clear(); e = None
    for _ in range(2):
        order = list(range(n)); rng.shuffle(order)
        for i in order:
            got = result(ops, make(ks[i]))
            if got != want[i]:
                raise Violation(f"{what}: another result for an expression after others of the same shape were made and dropped", expr=str(make(ks[i]))[:300],
                                got=str(got)[:400], want=str(want[i])[:400])
    ctx.obs("made_and_dropped", 2 * n)
