"""Operations that are refused, that fail half way, or that work on very large or deep things.

outcome(label) gives the result as text.  As a script: extremes.py SEED [all] prints every outcome.
"""
import hashlib, os, random, sys

if __name__ == "__main__": sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pv import load

load.install()
import protosym.simplecas as sc
from protosym.core.atom import AtomType
from protosym.core.evaluate import Evaluator, Transformer
from protosym.core.sym import AtomFunc, AtomRule, HeadOp, HeadRule, PyFunc1, PyOp1, PyOp2, PyOpN, Sym, SymDifferentiator, star
from protosym.core.tree import SubsFunc, Tr, Tree, forward_graph, topological_sort, topological_split

x, y, z = (sc.Symbol(s) for s in "xyz")
f, g = sc.Function("f"), sc.Function("g")
a, b = sc.a, sc.b
ITEMS = {}          # label -> (function, flags)


LATER = []


def with_sympy():
    """Adds what starts from SymPy's objects."""
    while LATER: LATER.pop()()


def item(label, *flags):
    def deco(fn): ITEMS[label] = (fn, flags); return fn
    return deco


def refuse(label, *flags):
    """Several calls of which each has an outcome of its own."""
    def deco(fn):
        def add():
            for k, h in enumerate(fn()): ITEMS[f"{label} {k}"] = (h, flags)
        if label == "sympy": LATER.append(add)
        else: add()
        return fn
    return deco


class Num:
    def __index__(self): return 3
    def __int__(self): return 3


@refuse("operands")
def _():
    for other in (1.5, "x", None, [x], Num(), (1,), b"1", 2j, object, Tr):
        for fn in (lambda o: x + o, lambda o: o + x, lambda o: x * o, lambda o: o - x, lambda o: x ** o, lambda o: o ** x, lambda o: x / o, lambda o: f(x, o), lambda o: sc.Add(o), lambda o: x.subs(o) if hasattr(x, "subs") else x + o):
            yield lambda other=other, fn=fn: fn(other)

@refuse("trees")
def _():
    I = AtomType("I", int)
    t = Tr(I(1))
    for fn in (lambda: Tree(), lambda: Tree(1), lambda: Tree(t, 1), lambda: Tree(t, x), lambda: Tr(1), lambda: Tr(t), lambda: Tr(None), lambda: Sym(1), lambda: Sym(x), lambda: sc.Expr(x), lambda: sc.Expr(None), lambda: t(1), lambda: t(t, None),
               lambda: sc.Expr(I(1)), lambda: sc.Expr(x.rep, 1), lambda: x.rep.children[3], lambda: x.args, lambda: x.head): yield fn

@refuse("substitution")
def _():
    e = x + sc.sin(y) * x
    fn, fn2, ef = SubsFunc(e.rep, [x.rep, y.rep]), SubsFunc(e.rep, []), e.as_function(x, y)
    for h in (lambda: fn(), lambda: fn(x.rep), lambda: fn(x.rep, y.rep, z.rep), lambda: fn2(x.rep), lambda: fn2(), lambda: fn(1, x.rep), lambda: fn(None, None), lambda: ef(), lambda: ef(1), lambda: ef(1, 2, 3), lambda: ef(1.5, x), lambda: ef(z, 3),
              lambda: e.as_function(1.5), lambda: e.as_function()(), lambda: e.as_function()(1), lambda: e.xreplace({x: 1}), lambda: e.xreplace({1: x}), lambda: e.xreplace({x: None}), lambda: e.xreplace({}), lambda: fn(y.rep, x.rep)): yield h

@refuse("matrices")
def _():
    M, N = sc.Matrix([[x, 0], [1, y]]), sc.Matrix([[x, 2, f(y)]])
    for h in (lambda: sc.Matrix("ab"), lambda: sc.Matrix([1, 2]), lambda: sc.Matrix([(1, 2)]), lambda: sc.Matrix([[1], [2, 3]]), lambda: sc.Matrix([[1.5]]), lambda: sc.Matrix(None), lambda: sc.Matrix([[x], None]), lambda: M[2, 0], lambda: M[0, 2], lambda: M[-1, 0], lambda: M[0],
              lambda: M["a", 0], lambda: M[0, 0, 0], lambda: M[0.0, 1], lambda: M[:, 0], lambda: M + N, lambda: M + 1, lambda: 1 + M, lambda: M + x, lambda: M + None, lambda: M.binop(N, sc.Mul), lambda: M.diff(1), lambda: M.diff(None), lambda: M.diff(x), lambda: N.diff(y),
              lambda: M.to_llvm_ir([x]), lambda: N.to_llvm_ir([x, y]), lambda: M.to_llvm_ir([x, y]), lambda: M.binop(M, f), lambda: M + M): yield h

@refuse("evaluation")
def _():
    e, big = x + sc.sin(y) * x, sc.Integer(10 ** 400)
    ev, tr = Evaluator(), Transformer()
    ev.add_op1(sc.sin.rep, lambda v: v); tr.add_op2(sc.sin.rep, lambda p, q: p)
    for h in (lambda: e.eval_f64(), lambda: e.eval_f64({x: 1.0}), lambda: e.eval_f64({x: 1.0, y: 2.0}), lambda: e.eval_f64({x: "1", y: 2.0}), lambda: f(x).eval_f64({x: 1.0}), lambda: big.eval_f64(), lambda: (big * x).eval_f64({x: 0.0}), lambda: (x ** y).eval_f64({x: -1.0, y: .5}),
              lambda: (x ** -1).eval_f64({x: 0.0}), lambda: (x ** y).eval_f64({x: 1e300, y: 3.0}), lambda: sc.sin(x).eval_f64({x: float("inf")}), lambda: sc.Add(x, x).eval_f64({x: 1e308}), lambda: sc.sin(x, y).eval_f64({x: 1.0, y: 2.0}), lambda: ev(e.rep), lambda: ev(e.rep, {x.rep: 1}),
              lambda: ev(sc.sin(x).rep, {x.rep: 5}), lambda: tr(sc.sin(x).rep), lambda: tr(sc.sin(x, y).rep), lambda: a.eval_f64(), lambda: sc.List(x, 1).eval_f64({x: 1.0}), lambda: (x * big).to_llvm_ir([x]), lambda: e.to_llvm_ir([x]), lambda: f(x).to_llvm_ir([x]), lambda: a.to_llvm_ir([]),
              lambda: x(y).eval_f64({x: 1.0, y: 1.0}), lambda: sc.Integer(3)(y).eval_f64({y: 1.0}), lambda: f(x)(y).eval_f64({x: 1.0}), lambda: f(x)(y).to_llvm_ir([x, y]), lambda: e.eval_f64({1: 2.0}), lambda: e.to_llvm_ir([1])): yield h

@refuse("rules")
def _():
    def sev(): return sc.Expr.new_evaluator("e", int)
    def D(): return SymDifferentiator(sc.Expr, add=sc.Add, mul=sc.Mul, zero=sc.zero, one=sc.one)
    op1, op2, opn, fn1 = PyOp1(abs), PyOp2(pow), PyOpN(sum), PyFunc1(int)
    for h in (lambda: sev().__setitem__(f(a), 1), lambda: sev().__setitem__(f(a), op2(a, b)), lambda: sev().__setitem__(f(a), op1(b)), lambda: sev().__setitem__(f(a), opn(a)), lambda: sev().__setitem__(f(star(a)), op1(a)), lambda: sev().__setitem__(sc.Integer[a], op1(a)), lambda: sev().__setitem__(sc.Integer[a], fn1(b)),
              lambda: sev().__setitem__(f(a), fn1(a)), lambda: sev().__setitem__(AtomRule[a], op1(a)), lambda: sev().__setitem__(HeadRule(a, b), AtomFunc(str)(a)), lambda: sev().__setitem__(f(a), HeadOp(lambda h, v: 1)(a, b)), lambda: sev().add_op(f, 1), lambda: sev().__setitem__(1, op1(a)), lambda: sev()(f(x)), lambda: sev()(x),
              lambda: D().__setitem__(f(a), a), lambda: D().__setitem__((f(a), b), a), lambda: D().__setitem__((f(a, a), a), a), lambda: D().__setitem__((f(a),), a), lambda: D().__setitem__((f(a), a, a), a), lambda: D().__setitem__((f(a), a), 1), lambda: D()(f(x), x), lambda: D()(f(y), x), lambda: D()(sc.sin(x), x, 2), lambda: D()(x * x, x), lambda: f(x).diff(x), lambda: f(y).diff(x),
              lambda: x.diff(1), lambda: x.diff(x, "2"), lambda: (x ** y).diff(x, 0), lambda: x.diff(x, -1), lambda: op1(), lambda: op1(a, b), lambda: op2(a), lambda: star(1)): yield h

@refuse("compilation", "llvm")
def _():
    M = sc.Matrix([[x, 0], [1, sc.sin(y)]])
    for h in (lambda: sc.lambdify([x], 1), lambda: sc.lambdify([x], None), lambda: sc.lambdify([1], x), lambda: sc.lambdify([x], x + y), lambda: sc.lambdify([x], f(x)), lambda: sc.lambdify([x], M), lambda: sc.lambdify([x, y], sc.Matrix([[f(x)]])), lambda: sc.lambdify([x], sc.Integer(10 ** 400)), lambda: sc.lambdify([x], "x"),
              lambda: sc.lambdify([x, y], M)(1.0), lambda: sc.lambdify([x, y], M)("a", 1.0), lambda: sc.lambdify([x, y], M)(2.0, 0.0).tolist(), lambda: sc.lambdify([x], x ** -1)(0.0), lambda: sc.lambdify([x], sc.Matrix([[x ** -1, sc.sin(x)]]))(0.0).tolist(), lambda: sc.lambdify([x], sc.Matrix([[sc.sin(x ** -1), x * -1]]))(0.0).tolist(),
              lambda: sc.lambdify([x], x ** sc.Integer(700))(1e3), lambda: sc.lambdify([x], x + 1)(), lambda: sc.lambdify([x], x + 1)("a"), lambda: sc.lambdify([x], x + 1)(None), lambda: sc.lambdify([x], sc.Matrix([[x ** 700, 0]]))(1e3).tolist(), lambda: sc.lambdify([x], sc.Integer(2 ** 64 + 1) * x)(1.0)): yield h

@refuse("sympy", "sympy")
def _():
    import sympy
    X, Y = sympy.symbols("x y")
    def deep(n):
        e = X
        for k in range(n): e = sympy.sin(sympy.cos(e)) + k
        return e
    wide = sympy.Add(*[sympy.sin(X * k) for k in range(300)], evaluate=False)
    d = deep(60)
    for h in (lambda: sc.Expr.from_sympy(sympy.exp(X)), lambda: sc.Expr.from_sympy(sympy.pi), lambda: sc.Expr.from_sympy(sympy.Rational(1, 2)), lambda: sc.Expr.from_sympy(sympy.Float(1.5) + X), lambda: sc.Expr.from_sympy(d), lambda: sc.Expr.from_sympy(d + sympy.exp(Y)), lambda: sc.Expr.from_sympy(sympy.exp(d)), lambda: sc.Expr.from_sympy(wide), lambda: sc.Expr.from_sympy(wide * sympy.E),
              lambda: sc.Matrix.from_sympy(sympy.Matrix([[d, X], [0, sympy.exp(d)]])), lambda: sc.Matrix.from_sympy(sympy.Matrix([[d, X], [0, wide]])), lambda: sc.Expr.from_sympy(sympy.Derivative(sympy.Function("f")(X), X)), lambda: sc.Expr.from_sympy(sympy.Function("sin2")(X)), lambda: sc.Expr.from_sympy(sympy.Integral(X, X)), lambda: sc.Expr.from_sympy(X > 1), lambda: sc.Expr.from_sympy(1),
              lambda: sc.Expr.from_sympy(None), lambda: f(x)(y).to_sympy(), lambda: x(y).to_sympy(), lambda: a.to_sympy(), lambda: str(f(sc.sin(x)).to_sympy()), lambda: sc.Matrix([[x(y)]]).to_sympy(), lambda: sc.Matrix.from_sympy(sympy.Matrix([[sympy.pi]])), lambda: sc.Expr.from_sympy(sympy.S.true), lambda: sc.Expr.from_sympy(sympy.oo), lambda: sc.Expr.from_sympy(sympy.I * X),
              lambda: chain(120).to_sympy() is None, lambda: sc.Expr.from_sympy(chain(120).to_sympy()), lambda: sc.Expr.from_sympy(sympy.Symbol("w", positive=True)) and None): yield h


def chain(n, e=None):
    e = x if e is None else e
    for k in range(n): e = sc.sin(e) + k if k % 3 else sc.cos(e * y)
    return e

def sharing(n):
    e = x
    for _ in range(n): e = e + sc.sin(e) * y
    return e

DEEP = chain(2600)
HARD = f(DEEP)                      # no rule at the very end
SOFT = sc.Add(f(x), DEEP)           # no rule at the start
SHARED = sharing(60)
WIDE = sc.Add(*[sc.sin(x + k) for k in range(2500)])
WIDEMUL = sc.Mul(*[sc.cos(x + k) for k in range(120)])
VALS = {x: .25, y: .5}
ops = {"sort": lambda e: topological_sort(e.rep), "heads": lambda e: topological_sort(e.rep, heads=True), "split": lambda e: [sorted(map(S, p)) for p in map(list, topological_split(e.rep))], "graph": lambda e: [(S(h), i) for h, i in forward_graph(e.rep).operations],
       "f64": lambda e: e.eval_f64(VALS), "f64 without values": lambda e: e.eval_f64({x: .5}), "counts": lambda e: (e.count_ops_graph(), e.count_ops_tree()), "expand": lambda e: e.bin_expand(), "diff": lambda e: e.diff(x), "diff y": lambda e: e.diff(y), "subs": lambda e: e.xreplace({x: y}), "subs deep": lambda e: e.xreplace({x: g(y), y: x}),
       "function": lambda e: e.as_function(x)(7), "function misused": lambda e: e.as_function(x)(7, 8), "ir": lambda e: e.to_llvm_ir([x, y]), "ir without y": lambda e: e.to_llvm_ir([x]), "matrix": lambda e: sc.Matrix([[e, 0], [1, e]]).diff(x), "matrix ir": lambda e: sc.Matrix([[e, 0], [1, sc.sin(e)]]).to_llvm_ir([x, y]),
       "matrix sum": lambda e: sc.Matrix([[e, 0], [1, e]]) + sc.Matrix([[0, e], [e, e]]), "equal": lambda e: (e == e, e != x, hash(e) == hash(e), e.args[-1] is e.args[-1])}
for _en, _e in (("deep", DEEP), ("hard", HARD), ("soft", SOFT), ("shared", SHARED), ("wide", WIDE), ("wide product", WIDEMUL)):
    for _on, _o in ops.items(): ITEMS[f"{_on} of {_en}"] = (lambda e=_e, o=_o: o(e), ())
for _en, _e in (("deep", chain(700)), ("shared", sharing(9)), ("wide", WIDE), ("wide product", WIDEMUL)):
    ITEMS[f"repr of {_en}"] = (lambda e=_e: repr(e), ())
    ITEMS[f"latex of {_en}"] = (lambda e=_e: e.eval_latex(), ())
    ITEMS[f"tree text of {_en}"] = (lambda e=_e: (str(e.rep), repr(e.rep)), ())

INTS = [2 ** 53 + 1, -(2 ** 53) - 1, 10 ** 23, 12345678901234567890, 2 ** 64 - 1, 2 ** 64 + 2049, -10 ** 30 + 7, 10 ** 100 + 1, 3 ** 300, 2 ** 1023 * 2 - 2 ** 969, 10 ** 308, 10 ** 309, -10 ** 400]
for _k, _n in enumerate(INTS):
    for _on, _o in {"f64": lambda e: e.eval_f64(), "f64 of a sum": lambda e: (e + x).eval_f64({x: .5}), "repr": repr, "latex": lambda e: e.eval_latex(), "ir": lambda e: (e * x).to_llvm_ir([x]), "matrix ir": lambda e: sc.Matrix([[e]]).to_llvm_ir([]), "diff": lambda e: (x ** e).diff(x), "tree": lambda e: (str(e.rep), repr(e.rep)), "same": lambda e: e is sc.Integer(e.rep.value.value + 0)}.items():
        ITEMS[f"{_on} of integer {_k}"] = (lambda n=_n, o=_o: o(sc.Integer(n)), ())
    ITEMS[f"compiled integer {_k}"] = (lambda n=_n: sc.lambdify([x], sc.Integer(n) + x)(.5), ("llvm",))
for _k, _n in enumerate([10 ** 700, -10 ** 4299, 10 ** 4300, 10 ** 5000, -10 ** 9000, 2 ** 14500]):
    for _on, _o in {"repr": repr, "latex": lambda e: e.eval_latex(), "tree": lambda e: (str(e.rep), repr(e.rep)), "sum": lambda e: repr(x + e * y), "matrix": lambda e: repr(sc.Matrix([[e]])), "f64": lambda e: (x + e).eval_f64({x: 1.0}), "ir": lambda e: (x + e).to_llvm_ir([x]), "subs": lambda e: (x + e).xreplace({x: y}), "diff": lambda e: (x ** e).diff(x)}.items():
        ITEMS[f"{_on} of huge integer {_k}"] = (lambda n=_n, o=_o: o(sc.Integer(n)), ("digits",))
    ITEMS[f"compiled huge integer {_k}"] = (lambda n=_n: sc.lambdify([x], sc.Integer(n) + x), ("llvm", "digits"))
    ITEMS[f"huge integer {_k} to sympy"] = (lambda n=_n: (sc.Integer(n) + x).to_sympy() is None, ("sympy", "digits"))

class Boom(Exception): pass

def failing(e, nth):
    """An evaluator, a transformer and a HeadRule that fail at the nth operation."""
    def count():
        n[0] += 1
        if n[0] == nth: raise Boom
    n = [0]
    ev = Evaluator()
    ev.add_atom_generic(lambda t: 1)
    def op(h, args): count(); return sum(args) % 1009
    ev.add_op_generic(op)
    return ev(e.rep)

def failing_tr(e, nth):
    n = [0]
    tr = Transformer()
    def op(v):
        n[0] += 1
        if n[0] == nth: raise Boom
        return sc.cos.rep(v)
    tr.add_op1(sc.sin.rep, op)
    return sc.Expr(tr(e.rep))

for _nth in (1, 700, 2400, 10 ** 9):
    for _en, _e in (("deep", DEEP), ("wide", WIDE)):
        ITEMS[f"evaluator that fails at {_nth} of {_en}"] = (lambda e=_e, n=_nth: failing(e, n), ())
        ITEMS[f"transformer that fails at {_nth} of {_en}"] = (lambda e=_e, n=_nth: failing_tr(e, n), ())

MEMO = {}
def S(t):
    """Digest of a tree by its structure."""
    stack = [t]
    while stack:
        n = stack[-1]
        if n in MEMO: stack.pop(); continue
        todo = [c for c in n.children if c not in MEMO]
        if todo: stack.extend(todo); continue
        MEMO[n] = D(*[MEMO[c] for c in n.children]) if n.children else D(n.value.atom_type.name, hex(n.value.value) if type(n.value.value) is int else repr(n.value.value))
        stack.pop()
    return MEMO[t]

def D(*parts): return hashlib.blake2b("\0".join(parts).encode("utf8", "surrogatepass"), digest_size=8).hexdigest()

def text(r):
    if isinstance(r, sc.Expr): return f"Expr {S(r.rep)}"
    if isinstance(r, Tree): return f"Tree {S(r)}"
    if isinstance(r, sc.Matrix): return f"Matrix {r.shape} {[[S(e.rep) for e in row] for row in r.tolist()]}"
    if isinstance(r, (list, tuple)): return f"{type(r).__name__} [{', '.join(map(text, r))}]"
    if r is None or type(r) in (bool, int, float): return repr(r)
    if isinstance(r, str): return r
    return f"a {type(r).__name__}"          # functions and objects without a value

def outcome(label, run=None):
    try: r = ITEMS[label][0]()
    except RecursionError: raise
    except Exception as e:
        return f"{type(e).__name__}"
    try: s = text(r)
    except RecursionError: raise
    except Exception as e: s = f"unreadable {type(r).__name__}: {type(e).__name__}"     # accepted, and no proper expression
    if len(MEMO) > 30000: MEMO.clear()
    return s if len(s) < 100 else f"{s[:30]}... {D(s)}"


if __name__ == "__main__":
    rng = random.Random(int(sys.argv[1]))
    skip = set(sys.argv[2:])
    if "sympy" not in skip: with_sympy()
    todo = [k for k, (fn, flags) in ITEMS.items() if not skip & set(flags)]
    got = {}
    rng.shuffle(todo)
    for k in todo: got[k] = outcome(k)
    for k in sorted(got): print(D(k), got[k].encode("ascii", "backslashreplace").decode().replace("\n", "\\n"), sep="|")
    print("end", len(got))
