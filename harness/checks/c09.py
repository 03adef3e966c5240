"""C09: derivatives read back and evaluated to 640 bits against Taylor coefficients."""
import protosym.simplecas as sc

from pv import churn, num
from pv.bridge import Builder, Reader
from pv.core import Violation, check, short
from pv.gen import Gen, size
from pv.model import Model
from pv.num import Undefined, Unsure, mpf


class CHECK:
    rule = "structurally different (expression, variable, order) triples"
    plan = {"quick": {"seconds": 9, "min": 20}, "thorough": {"seconds": 400, "min": 150}}
    floors = {"made_and_dropped": 60, "cases": 150, "derivatives": 400, "values_checked": 800, "higher_orders": 200, "refused_powers": 80, "refused_functions": 80,
              "constant_in_variable": 20, "deep": 5, "orders_above_5": 20, "order_zero": 150}

    def __init__(self, ctx):
        self.ctx = ctx

    def expr(self, m, rng):
        """Powers have exponents free of the variable (syms[0])."""
        g = Gen(m, rng, names=["x", "y", "z", "w"], ops={"Add": 4, "Mul": 5, "sin": 3, "cos": 3, "neg": 1, "sub": 1}, unary_ac=True,
                nullary=rng.random() < .1, nsyms=rng.choice([1, 2, 3]))
        var = g.syms[0]
        others = g.syms[1:]
        g2 = Gen(m, rng, names=[m.value(s) for s in others] or ["c"], ops={"Add": 2, "Mul": 2, "sin": 1})
        def power(base):
            k = rng.random()
            if k < .6: e = m.int(rng.choice([2, 3, -1, -2, 1, 0, 4, 7, -5]))
            elif k < .75: e = rng.choice([m.div(m.int(1), m.int(2)), m.div(m.int(-3), m.int(2)), m.mul(m.int(2), m.int(3)), m.add(m.int(1), m.int(1))])
            else: e = g2.expr(rng.choice([0, 1, 2]))
            return m.pow(base, e)
        pool = [g.atom(), var, var]
        for _ in range(rng.choice([1, 2, 4, 7, 11, 16])):
            k = rng.random()
            if k < .25: n = power(g.pick(pool))
            elif k < .3: n = m.mul(g.pick(pool), m.pow(g.pick(pool), m.int(-1)))
            else: n = g.node(pool)
            pool.append(n)
        root = pool[-1]
        if rng.random() < .1: root = m.app(m.fun(rng.choice(["Add", "Mul"])), *[rng.choice(pool) for _ in range(rng.choice([4, 9]))])
        return root, var, g

    def case(self, rng, idx):
        ctx, m = self.ctx, Model()
        if rng.random() < 0.03: churn.run(self.ctx, rng, "C09")
        root, var, g = self.expr(m, rng)
        if rng.random() < .05: root = rng.choice([var, var, g.atom(), m.add(var), m.mul(var), m.int(0)])
        if rng.random() < .03:
            for _ in range(rng.choice([50, 150])): root = rng.choice([m.sin, m.cos, lambda e: m.add(e, var)])(root)
            ctx.obs("deep")
        if rng.random() < .25:
            syms = m.symbols(root)
            other = [s for s in syms if s != var] + [m.sym("absent")]
            cand = rng.choice(other)
            if all(cand not in m.post(m.args(n)[1]) for n in m.post(root) if m.headname(n) == "pow"): var = cand
        if var not in m.post(root): ctx.obs("constant_in_variable")
        build = Builder(m, rng)
        read = Reader(m)
        e, v = build(root), build(var)
        order = rng.choice([1, 1, 1, 2, 2, 3, 4]) if m.size(root) < 30 else 1
        if m.size(root) < 8 and rng.random() < .4: order = size(rng, 4, 12)
        derivs = [e]
        for k in range(order):
            d = derivs[-1].diff(v)
            check(type(d) is sc.Expr, "a derivative is not an Expr")
            if len(derivs) > 1 and d.count_ops_graph() > 4000: order = k; break
            derivs.append(d)
        for k, d in enumerate(derivs):
            if k <= 3 or k == order:
                check(e.diff(v, k) is d, lambda: f"differentiating {k} times and asking for order {k} give different expressions", expr=m.show(root))
                check(sc.diff(e, v, k) is d, lambda: f"diff with order {k} differs from {k} first-order steps", expr=m.show(root))
        ctx.obs("order_zero")
        if rng.random() < .1:
            M = sc.Matrix([[e, 1], [v, e + v]]).diff(v)
            check(M[0, 0] is derivs[min(1, order)] or order < 1, "Matrix.diff differs from diff of the entry", expr=m.show(root))
        ctx.obs("derivatives", order)
        if order > 1: ctx.obs("higher_orders")
        if order > 5: ctx.obs("orders_above_5")
        nodes = [read(d) for d in derivs]
        syms = list(dict.fromkeys(m.symbols(root) + [var]))
        for _ in range(3):
            env = num.points(rng, syms, positive=rng.random() < .8)
            try: J = num.jets(m, root, env, var, order)[root]
            except (Unsure, Undefined): ctx.obs("not_judged"); continue
            fact = mpf(1)
            for k in range(1, order + 1):
                fact *= k
                try:
                    V = num.value(m, nodes[k], env)
                except Unsure: ctx.obs("not_judged"); continue
                except Undefined: ctx.obs("formula_undefined"); continue
                got, want = V[nodes[k]], J[k] * fact
                scale = max([abs(x) for x in V.values()] + [mpf(1)])
                if abs(got - want) > scale * mpf(10) ** -45 * (1 + len(V)):
                    raise Violation(f"derivative of order {k} with respect to {m.value(var)} evaluates to {num.mpmath.nstr(got, 15)} instead of {num.mpmath.nstr(want, 15)}",
                                    expr=m.show(root), derivative=m.show(nodes[k]), values={m.value(s): x for s, x in env.items()})
                ctx.obs("values_checked")
        ctx.sig(m.show(root, 1500), var, order)
        ctx.sample({"expr": m.show(root, 120), "variable": m.value(var), "order": order})
        # refusals
        x = sc.Symbol(rng.choice(["x", "q"]))
        bad = rng.choice([x**x, sc.Integer(2)**x, e**x, x**(x + 1), x**(sc.y * x), (x + 1)**sc.sin(x), sc.Pow(e, 0 * x), x**(x**2), (e + 2)**(1 / x)])
        self.refuse(rng, bad, x, e, "refused_powers", "a power whose exponent involves the variable")
        u = sc.Function("unknown_" + rng.choice("abc"))
        bad = rng.choice([u(x), u(1, x), u(x, x), u(sc.sin(x)), sc.sin(u(x * 2)), sc.f(x), u(x)**2])
        self.refuse(rng, bad, x, e, "refused_functions", "a function without a rule")

    def refuse(self, rng, bad, x, e, obs, what):
        wrapped = rng.choice([bad, bad + e, sc.Mul(bad, e, x), sc.sin(bad), sc.List(1, bad)])
        try: d = wrapped.diff(x) if rng.random() < .7 else wrapped.diff(x, 2)
        except Exception: self.ctx.obs(obs)
        else: raise Violation(f"differentiating {what} gave {short(d, 200)} instead of an error", expr=short(wrapped, 200))
