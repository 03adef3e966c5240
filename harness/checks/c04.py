"""C04: operators and calls build exactly the documented inert form."""
import numbers
import operator
from decimal import Decimal
from fractions import Fraction

import protosym.simplecas as sc
from protosym.core.atom import AtomType
from protosym.core.sym import Sym
from protosym.core.tree import Tr, Tree

from pv import churn
from pv.bridge import Builder, Reader, same
from pv.core import Violation, check, expect_raises, short
from pv.gen import INTS, NAMES, SMALL, Gen, bigint, size

from checks.c01 import TEXTS
from pv.model import Model


class OtherSym(Sym):
    pass


class Plain:
    """No arithmetic of its own."""


class HasInt:
    def __int__(self): return 3
    def __index__(self): return 3
    def __float__(self): return 3.0


class IntLike:
    """Registered as an integer, but no int."""
    def __init__(self, v): self.v = v
    def __int__(self): return self.v
    __index__ = __trunc__ = __int__


class RealLike:
    def __float__(self): return 2.5


class Callable:
    def __call__(self, *a): return a
    def __iter__(self): return iter(())
    def __len__(self): return 0


class WithRep:
    """Looks like an expression."""
    def __init__(self, e): self.rep = e.rep; self.args = e.args


class Knows:
    """Knows what to do with expressions."""
    def __radd__(self, o): return "+", o
    def __rsub__(self, o): return "-", o
    def __rmul__(self, o): return "*", o
    def __rtruediv__(self, o): return "/", o
    def __rpow__(self, o): return "**", o
    def __add__(self, o): return "own +", o
    def __sub__(self, o): return "own -", o
    def __mul__(self, o): return "own *", o
    def __truediv__(self, o): return "own /", o
    def __pow__(self, o): return "own **", o


numbers.Integral.register(IntLike)
numbers.Real.register(RealLike)

FOREIGN = [IntLike(2), IntLike(0), RealLike(), Callable(), WithRep(sc.Symbol("x")), type("Symbol", (), {"name": "x"})(), 1.5, 2.0, float("nan"), float("inf"), "x", "1", b"1", None, 1j, Fraction(1, 2), Decimal(1), [],
           [1], (1,), {}, {1: 2}, set(), frozenset([1]), object(), Plain(), HasInt(), int, ..., range(3), b"", (), ""]

BIN = {
    "+": (operator.add, lambda m, a, b: m.add(a, b)),
    "-": (operator.sub, lambda m, a, b: m.sub(a, b)),
    "*": (operator.mul, lambda m, a, b: m.mul(a, b)),
    "/": (operator.truediv, lambda m, a, b: m.div(a, b)),
    "**": (operator.pow, lambda m, a, b: m.pow(a, b)),
}
INPLACE = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "**": operator.ipow}
PRE = {"x": ("Symbol", "x"), "y": ("Symbol", "y"), "f": ("Function", "f"), "g": ("Function", "g"),
       "zero": ("Integer", 0), "one": ("Integer", 1), "negone": ("Integer", -1), "Add": ("Function", "Add"),
       "Mul": ("Function", "Mul"), "Pow": ("Function", "pow"), "sin": ("Function", "sin"), "cos": ("Function", "cos"),
       "List": ("Function", "List"), "a": ("Wild", "a"), "b": ("Wild", "b")}


class CHECK:
    rule = "structurally different final expressions of random operator programs"
    plan = {"quick": {"seconds": 7, "min": 30}, "thorough": {"seconds": 240, "min": 200}}
    floors = {"made_and_dropped": 60, "cases": 200, "binops": 1500, "rejections": 2000, "accessor_reads": 3000, "big_ints": 100, "wide_calls": 10, "own_operators": 2000}

    def __init__(self, ctx):
        self.ctx = ctx

    def operand(self, m, rng, pool):
        """(real operand, node): an expression or a native int."""
        if rng.random() < .3:
            n = rng.choice(SMALL if rng.random() < .5 else INTS)
            if rng.random() < .1: n = rng.randrange(-10**40, 10**40) if rng.random() < .5 else bigint(rng)
            if abs(n) > 2**53: self.ctx.obs("big_ints")
            return n, m.int(n)
        return rng.choice(pool)

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        if rng.random() < 0.03: churn.run(self.ctx, rng, "C04")
        read = Reader(m)
        pool = []
        for _ in range(rng.randint(1, 4)):
            s = rng.choice(NAMES if rng.random() < .8 else TEXTS)
            pool.append((sc.Symbol(s), m.sym(s)))
        n = rng.choice(SMALL + INTS)
        pool.append((sc.Integer(n), m.int(n)))
        k = rng.choice(sorted(PRE))
        pool.append((getattr(sc, k), m.atom(*PRE[k])))
        for e, node in pool:
            same(m, read, e, node, "atom constructor")
            v = e.rep.value.value
            check(type(v) is type(m.value(node)) and v == m.value(node), "atom value read back differs", want=m.value(node), got=v)
        log = []
        for step in range(rng.choice([1, 3, 8, 20, 40])):
            r = rng.random()
            if r < .6:
                op = rng.choice(sorted(BIN))
                fn, spec = BIN[op]
                a, an = self.operand(m, rng, pool)
                b, bn = self.operand(m, rng, pool)
                if isinstance(a, int) and isinstance(b, int):
                    a, an = rng.choice(pool)
                if rng.random() < .15:
                    fn = INPLACE[op]
                e, node = fn(a, b), spec(m, an, bn)
                what = f"{short(a, 80)} {op} {short(b, 80)}" if step < 6 else f"operator {op}"
                ctx.obs("binops")
            elif r < .68:
                a, an = rng.choice(pool)
                e, node, what = -a, m.neg(an), "unary -"
            elif r < .72:
                a, an = rng.choice(pool)
                e, node, what = +a, an, "unary +"
            elif r < .78:
                a, an = self.operand(m, rng, pool)
                e, node, what = sc.expressify(a), an, "expressify"
            else:
                h, hn = rng.choice(pool) if rng.random() < .3 else (None, None)
                if h is None:
                    name = rng.choice(["f", "g", "sin", "cos", "Add", "Mul", "pow", "List", "tan"] if rng.random() < .85 else TEXTS)
                    h, hn = sc.Function(name), m.fun(name)
                ops = [self.operand(m, rng, pool) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5, 12]) if rng.random() < .99 else size(rng, 12, 2000))]
                if len(ops) > 300: ctx.obs("wide_calls")
                if rng.random() < .1 and ops: ops = [ops[0]] * len(ops)
                e, node, what = h(*[o[0] for o in ops]), m.app(hn, *[o[1] for o in ops]), f"call of {m.show(hn, 60)}"
                ctx.obs("calls")
            log.append(what)
            check(type(e) is sc.Expr, f"{what}: result is a {type(e).__name__}, not an Expr")
            same(m, read, e, node, what)
            # accessors
            if m.is_atom(node):
                check(e.args == (), "an atom has arguments", what=what)
            else:
                args = e.args
                check(isinstance(args, tuple) and len(args) == len(m.args(node)), "args has the wrong length", what=what)
                same(m, read, e.head, m.head(node), "head of " + what)
                for c, cn in zip(args, m.args(node)):
                    check(type(c) is sc.Expr, "an argument is not an Expr", what=what)
                    same(m, read, c, cn, "argument of " + what)
                check(e.head(*args) is e, "rebuilding from head and args gives another object", what=what)
                ctx.obs("accessor_reads", len(args) + 1)
            pool.append((e, node))
        ctx.sig(m.show(pool[-1][1], 3000))
        ctx.sample({"last operations": log[-4:], "result": m.show(pool[-1][1], 120)})
        # a modulus is none of the documented forms
        a, b = rng.choice(pool)[0], rng.choice(pool)[0]
        for args in ((a, 2, 5), (a, b, 3), (a, b, b), (a, 2, -1)): expect_raises(TypeError, lambda: pow(*args), "pow with a modulus")
        # foreign operands
        e, node = rng.choice(pool)
        for bad in rng.sample(FOREIGN, 4) + [rng.choice([OtherSym(e.rep), e.rep, sc.Matrix([[e]]), AtomType("T", int)(1)])]:
            for op in BIN:
                fn = BIN[op][0]
                expect_raises(TypeError, lambda: fn(e, bad), f"expression {op} {type(bad).__name__}")
                expect_raises(TypeError, lambda: fn(bad, e), f"{type(bad).__name__} {op} expression")
            expect_raises(TypeError, lambda: e(bad), f"call with a {type(bad).__name__}")
            expect_raises(TypeError, lambda: sc.Add(e, bad, e), f"Add with a {type(bad).__name__}")
            expect_raises(TypeError, lambda: sc.expressify(bad), f"expressify of a {type(bad).__name__}")
            expect_raises(TypeError, lambda: sc.Matrix([[e, bad]]), f"Matrix entry of type {type(bad).__name__}")
            if not isinstance(bad, Tree):
                expect_raises(TypeError, lambda: sc.Expr(bad), f"Expr of a {type(bad).__name__}")
                expect_raises(TypeError, lambda: Tree(e.rep, bad), f"Tree with a {type(bad).__name__}")
                expect_raises(TypeError, lambda: Tree(bad), f"Tree of a {type(bad).__name__}")
            if type(bad).__name__ != "Atom":
                expect_raises(TypeError, lambda: Tr(bad), f"Tr of a {type(bad).__name__}")
            ctx.obs("rejections", 14)
        # operands that know what to do with expressions
        for op in BIN:
            r = BIN[op][0](e, Knows())
            check(type(r) is tuple and r[0] == op and r[1] is e, f"expression {op} an object with its own reflected operator")
            r = BIN[op][0](Knows(), e)
            check(type(r) is tuple and r[0] == "own " + op and r[1] is e, f"an object with its own operator {op} expression")
        ctx.obs("own_operators", 10)
        same(m, read, e, node, "the operand after the rejections")
