"""Random expression DAGs in the model."""

NAMES = ["x", "y", "z", "t", "u", "v", "alpha", "x1", "x2", "a", "b", "lambda", "_", "X", "theta_0", "w'"]
INTS = [0, 1, -1, 2, -2, 3, -3, 4, 5, 7, 10, -12, 100, 2**31, -2**31 - 1, 2**53, 2**53 + 1, -2**53 - 1,
        2**61 - 1, 2**61, 2**61 - 2, -(2**61 - 1), 2**63, 2**64 + 1, 10**30, -10**25 + 1, 3**90]
# The largest sizes are drawn log-uniformly: a bound anywhere in the code is met, small sizes stay the rule.
def size(rng, lo, hi): return int(round(lo * (hi / lo) ** rng.random()))


def bigint(rng, digits=900):
    """An integer of any size, often next to a power of two or ten."""
    k = size(rng, 1, digits)
    n = rng.choice([10 ** k, 2 ** (3 * k), 2 ** (3 * k + 1), rng.randrange(10 ** k)])
    return rng.choice([1, -1]) * (n + rng.choice([0, 0, 1, -1, rng.randrange(-100, 100)]))


def near_tie(rng):
    """An integer at or next to the middle between two doubles, or a bit further from it, or next to a double."""
    k = rng.choice([53, 54, 55, 60, 63, 64, 65, 100, rng.randint(53, 300)])
    unit = 1 << (k - 52)
    n = (1 << k) + rng.choice([0, 1, 2, 3, rng.randrange(1 << 52), (1 << 52) - 1]) * unit
    n += rng.choice([0, unit // 2, unit // 2]) + rng.choice([0, 1, -1, 1, -1, rng.randrange(-unit // 2 - 1, unit // 2 + 2)])
    return rng.choice([1, -1]) * n


def rounds_to(got, n):
    """Whether the double is the integer rounded to nearest."""
    return isinstance(got, float) and abs(got) < float("inf") and abs(int(got) - n) <= abs(int(float(n)) - n) and got == int(got)


SMALL = [0, 1, -1, 2, -2, 3, 4, 5, -3]


class Gen:
    """gen(rng).expr(...) -> node; knobs are drawn at random unless given."""

    def __init__(self, m, rng, names=None, ints=None, funs=("f", "g", "h"), ops=None, nsyms=None,
                 compound_heads=False, nullary=False, max_arity=None, unary_ac=False, tame=False, lookalike=False):
        self.m, self.rng = m, rng
        k = nsyms or rng.choice([1, 2, 2, 3, 4, 6])
        names = names or NAMES
        self.syms = [m.sym(s) for s in rng.sample(names, min(k, len(names)))]
        self.ints = ints or (SMALL if rng.random() < .6 else INTS)
        self.funs = [m.fun(f) for f in funs]
        self.compound_heads, self.nullary, self.unary_ac = compound_heads, nullary, unary_ac
        self.max_arity = max_arity or rng.choice([2, 3, 3, 5, 9])
        self.ops = ops or {"Add": 4, "Mul": 4, "pow": 3, "sin": 2, "cos": 2, "fun": 2}
        self.sharing = rng.random()
        self.tame, self.lookalike = tame, lookalike

    def atom(self):
        r = self.rng
        if self.lookalike and r.random() < .25: return self.alike()
        return r.choice(self.syms) if r.random() < .6 else self.m.int(r.choice(self.ints))

    def alike(self):
        """An atom that prints or is valued like another one and is of another kind."""
        m, r = self.m, self.rng
        s = m.value(r.choice(self.syms))
        return r.choice([lambda: m.atom("Wild", s), lambda: m.fun(s), lambda: m.sym(str(r.choice(self.ints))), lambda: m.fun(r.choice(["Add", "Mul", "sin", "f", "List"])),
                         lambda: m.sym(r.choice(["Add", "Mul", "sin", "f", "f(x)", "(x + y)", "x**2"])), lambda: m.atom("Wild", str(r.choice(self.ints)))])()

    def pick(self, pool):
        r = self.rng
        t = r.random()
        if t < .35: return pool[-1 - min(int(r.expovariate(.8)), len(pool) - 1)]
        if t < .35 + .3 * self.sharing: return r.choice(pool)
        if t < .8: return r.choice(pool[:max(1, len(pool) // 2)])
        return self.atom()

    def arity(self, lo):
        r = self.rng
        n = lo + min(int(r.expovariate(1.0)), max(0, self.max_arity - lo))
        if r.random() < .02: n = r.randint(10, 40)
        elif r.random() < .006: n = r.choice([17, 33, 50, 64, 65, 100, 129, 200, 257])
        return n

    def wide(self, top=300):
        """One node with many arguments, few or many of them different."""
        m, r = self.m, self.rng
        pool = self.pool(r.choice([2, 5, 20]))
        for _ in range(r.choice([0, 0, 100])): pool.append(m.app(r.choice(self.funs), m.int(r.randrange(500))) if "fun" in self.ops else m.int(r.randrange(500)))
        few = r.sample(pool, min(len(pool), r.choice([1, 3, 200])))
        args = [r.choice(few) for _ in range(r.choice([17, 33, 50, 64, 65, 100, 129, 200, 257, size(r, 10, top), size(r, 10, top)]))]
        if "fun" in self.ops and r.random() < .5: h = r.choice(self.funs)
        else: h = m.fun(r.choice(["Add", "Mul"]))
        return m.app(h, *args)

    def node(self, pool):
        m, r = self.m, self.rng
        names = list(self.ops)
        op = r.choices(names, [self.ops[n] for n in names])[0]
        P = lambda: self.pick(pool)
        if op in ("Add", "Mul"):
            lo = 1 if self.unary_ac and r.random() < .1 else 2
            if self.nullary and r.random() < .04:
                return m.app(m.fun(op))
            args = [P() for _ in range(self.arity(lo))]
            if r.random() < .1: args = [args[0]] * len(args)
            return m.app(m.fun(op), *args)
        if op == "pow":
            e = P() if not self.tame or r.random() < .15 else m.int(r.choice([2, 3, -1, -2, 1, 0, 4]))
            return m.pow(P(), e)
        if op in ("sin", "cos"): return m.app(m.fun(op), P())
        if op == "neg": return m.neg(P())
        if op == "sub": return m.sub(P(), P())
        if op == "div": return m.div(P(), P())
        if op == "list": return m.list(*[P() for _ in range(self.arity(1))])
        if op == "fun":
            h = r.choice(self.funs)
            if self.compound_heads and r.random() < .4: h = P() if r.random() < .4 else r.choice(pool[-4:])
            elif self.lookalike and r.random() < .15: h = m.atom(r.choice(["Symbol", "Symbol", "Wild"]), r.choice(["Add", "Mul", "pow", "sin", "List"]))
            n = 0 if self.nullary and r.random() < .15 else self.arity(1)
            return m.app(h, *[P() for _ in range(n)])
        raise AssertionError(op)

    def pool(self, n):
        pool = [self.atom() for _ in range(self.rng.randint(1, 4))] + self.syms[:1]
        for _ in range(n):
            pool.append(self.node(pool))
        return pool

    def expr(self, n=None):
        r = self.rng
        if n is None:
            n = r.choice([0, 1, 2, 3, 5, 8, 12, 20, 30])
        return self.pool(n)[-1]

    def chain(self, n):
        """A deep expression where every node is used one level up."""
        m, r = self.m, self.rng
        e = self.atom()
        for _ in range(n):
            pool = [self.atom(), e]
            k = r.randrange(5)
            if k == 0: e = m.sin(e)
            elif k == 1 and "fun" in self.ops: e = m.app(r.choice(self.funs), *([self.atom()] * r.randrange(3) + [e]))
            elif k == 2: e = m.add(e, self.atom())
            elif k == 3: e = m.mul(self.atom(), e)
            else: e = m.cos(e)
        return e

    def large(self, top, share=.3, env=None):
        """Up to about top operations on up to as many different atoms; everything is reachable."""
        m, r = self.m, self.rng
        n, k = size(r, 20, top), size(r, 1, top)
        if r.random() < .5: k = min(k, 10)
        todo = [m.sym(f"q{i}") if env is None or r.random() < .1 and i < env else m.int(i - k // 2) for i in range(k)]
        r.shuffle(todo)
        pool, at, made = list(todo), 0, 0
        while made < n or len(todo) - at > 1:
            a = todo[at]; at += 1
            rest = len(todo) - at
            def other():
                nonlocal at
                if at < len(todo) and (made >= n or r.random() > share): at += 1; return todo[at - 1]
                return r.choice(pool)
            c = r.randrange(6)
            if made < n and c == 0: e = m.sin(a)
            elif made < n and c == 1: e = m.cos(a)
            elif c == 2 and "fun" in self.ops: e = m.app(r.choice(self.funs), a, other(), *([other()] if r.random() < .3 else []))
            elif c == 3: e = m.add(other(), a)
            elif c == 4: e = m.sin(m.mul(a, other()))
            else: e = m.add(a, other())
            todo.append(e); pool.append(e); made += 1
        return todo[-1]

    def doubling(self, n):
        """A DAG of n levels whose tree is exponentially large."""
        m, r = self.m, self.rng
        e = r.choice(self.syms)
        for _ in range(n):
            k = r.randrange(4)
            if k == 0: e = m.add(m.pow(e, m.int(2)), e)
            elif k == 1: e = m.mul(e, m.sin(e))
            elif k == 2: e = m.add(e, e, self.atom())
            elif "fun" not in self.ops: e = m.sin(m.add(e, m.cos(e)))
            else: e = m.app(r.choice(self.funs), e, m.cos(e))
        return e


def deep_probe(rng):
    return rng.choice([3, 10, 40, 150])
