"""Calls and atoms that print like the predefined ones and are something else."""
import protosym.simplecas as sc

ARITY = {"Add": 2, "Mul": 2, "pow": 2, "sin": 1, "cos": 1, "List": 2}


def head(rng):
    """(name, head): a head that prints as a predefined one but is another atom."""
    name = rng.choice(sorted(ARITY))
    kinds = [sc.Symbol, sc.Expr.new_wild, sc.Expr.new_atom("Function", str), sc.Expr.new_atom("Symbol", str), sc.Expr.new_atom("Head", str)]
    return name, rng.choice(kinds)(name)


def call(rng, args):
    """A call of such a head with as many of the arguments as the real one usually takes."""
    name, h = head(rng)
    n = ARITY[name] if name in ("pow", "sin", "cos") else rng.choice([1, 2, 2, 3])
    pool = list(args) or [sc.one]
    return h(*[rng.choice(pool) for _ in range(n)])


def number(rng):
    """An atom that prints as an integer or holds one but is no Integer."""
    n = rng.randrange(10**9, 10**10)
    return rng.choice([lambda: sc.Expr.new_atom("Integer", int)(n), lambda: sc.Expr.new_atom("Rational", int)(n), lambda: sc.Expr.new_atom("Symbol", int)(n),
                       lambda: sc.Expr.new_atom("Float", float)(float(n)), lambda: sc.Symbol(str(n)), lambda: sc.Function(str(n)),
                       lambda: sc.Expr.new_atom("Integer", str)(str(n)), lambda: sc.Expr.new_atom("Flag", bool)(True)])()
